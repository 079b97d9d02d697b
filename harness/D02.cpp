// D02: tree queries and searches find exactly the addressed node
// @fuzz-quick 6
// @fuzz-thorough 240
#include "treelib.hpp"
#include <deque>
struct Tree { Meter mt; zpl_adt_node root; M m; std::deque<std::string> pool; std::vector<zpl_adt_node *> gone; void release() { for (auto *k : gone) zpl_array_free(k); gone.clear(); } ~Tree() { release(); } const char *hold(const std::string &s) { pool.push_back(s); return pool.back().c_str(); } };
static std::string num_text(const M &m) { char b[400]; if (m.type == T_INT) { snprintf(b, sizeof b, "%lld", (long long)m.i); return b; } switch (m.props) { case ZPL_ADT_PROPS_TRUE: return "true"; case ZPL_ADT_PROPS_FALSE: return "false"; case ZPL_ADT_PROPS_NULL: return "null"; case ZPL_ADT_PROPS_INFINITY: return "Infinity"; } snprintf(b, sizeof b, "%f", m.v); return b; }
static std::string gen_name(Gen &g, bool wild) { return wild ? g.str(8, "ab/[]=01 ") : std::string(1, g.pickc("abcA1")) + (g.u(3) ? "" : g.str(20, "ab1[]= ")); }
static std::string gen_text(Gen &g) { return g.u(6) == 5 ? g.str(5, "ab]=/[") : g.u(3) ? std::string(1, g.pickc("xyz1")) : std::to_string(g.u(12)); }
static void build(Gen &g, Tree &t, M &m, zpl_adt_node *n, int depth, size_t &budget) {
    size_t k = std::min(budget, g.size(depth == 0 ? 6 : 4)); if (depth == 0 && !k) k = 1; budget -= std::min(budget, k); zpl_allocator al = meter_allocator(t.mt);
    m.kids.resize(k);
    for (size_t i = 0; i < k; i++) { // children first get their places, containers are filled once all siblings are there
        M &c = m.kids[i]; c.named = g.u(10) != 9; c.name = c.named ? gen_name(g, g.u(12) == 11) : ""; const char *nm = c.named ? t.hold(c.name) : NULL;
        switch (g.u(depth > 4 ? 4 : 7)) { case 0: c.type = T_INT; c.i = g.u(3) ? (int64_t)g.u(12) : g.i64any(); zpl_adt_append_int(n, nm, c.i); break; case 1: case 2: { c.type = g.u(4) ? T_STR : T_MSTR; c.s = gen_text(g); zpl_adt_node *r = zpl_adt_append_str(n, nm, t.hold(c.s)); r->type = (zpl_u8)c.type; break; }
            case 3: { c.type = T_REAL; c.v = (double)g.range(-64, 64) / 8 + 0.0625; zpl_adt_node *r = zpl_adt_append_flt(n, nm, c.v); if (g.boolean()) { static const int P[] = {ZPL_ADT_PROPS_TRUE, ZPL_ADT_PROPS_FALSE, ZPL_ADT_PROPS_NULL, ZPL_ADT_PROPS_INFINITY}; c.props = P[g.u(4)]; r->props = (zpl_u8)c.props; } break; }
            case 4: c.type = T_ARR; zpl_adt_append_arr(n, nm); break; default: c.type = T_OBJ; zpl_adt_append_obj(n, nm); }
        (void)al;
    }
    // nodes that were there once and have been removed again
    for (size_t i = 0, x = g.u(3) ? 0 : 1 + g.u(2); i < x; i++) { const char *nm = t.hold(gen_name(g, false)); if (g.boolean()) { zpl_adt_node *o = zpl_adt_append_obj(n, nm); zpl_adt_append_str(o, t.hold(gen_name(g, false)), t.hold(gen_text(g))); zpl_adt_node *in = o->nodes; t.gone.push_back(in); } else if (g.boolean()) zpl_adt_append_str(n, nm, t.hold(gen_text(g))); else zpl_adt_append_int(n, nm, (int64_t)g.u(12)); zpl_adt_remove_node(n->nodes + (zpl_array_count(n->nodes) - 1)); }
    for (size_t i = 0; i < k; i++) if (m.kids[i].type == T_ARR || m.kids[i].type == T_OBJ) build(g, t, m.kids[i], n->nodes + i, depth + 1, budget);
}
static void make(Gen &g, Tree &t) { t.m.type = g.u(3) ? T_OBJ : T_ARR; memset(&t.root, 0, sizeof t.root); zpl_adt_make_branch(&t.root, meter_allocator(t.mt), NULL, t.m.type == T_ARR); size_t budget = 35; build(g, t, t.m, &t.root, 0, budget); }
static std::string show(const M &m) { std::string s = m.named ? m.name + ":" : ""; if (m.type == T_ARR || m.type == T_OBJ) { s += m.type == T_ARR ? "[" : "{"; for (auto &k : m.kids) s += show(k) + " "; return s + (m.type == T_ARR ? "]" : "}"); } return s + (m.type == T_STR || m.type == T_MSTR ? "'" + m.s + "'" : num_text(m)); }
typedef std::vector<size_t> Path; typedef std::pair<bool, Path> Found;
static const M &at(const M &m, const Path &p) { const M *x = &m; for (size_t k : p) x = &x->kids[k]; return *x; }
static bool box(const M &m) { return m.type == T_ARR || m.type == T_OBJ; }
static bool has_value(const M &m, const std::string &v) { return m.type == T_STR || m.type == T_MSTR ? m.s == v : (m.type == T_INT || m.type == T_REAL) && num_text(m) == v; }
static bool has_field(const M &m, const std::string &f, const std::string &v) { for (auto &k : m.kids) if (k.named && k.name == f && has_value(k, v)) return true; return false; }
// one step of a query: a name, an index, a [field=value] or a [value]
struct Step { int kind; std::string a, b; std::string text() const { return kind == 0 ? a : kind == 1 ? "[" + a + "=" + b + "]" : "[" + a + "]"; } };
static Found walk(const M &root, const std::vector<Step> &q) {
    Path p;
    for (auto &s : q) { const M &m = at(root, p); if (!box(m)) return {false, {}}; bool hit = false;
        if (s.kind == 1) { if (m.type == T_OBJ) hit = has_field(m, s.a, s.b); else for (size_t i = 0; i < m.kids.size() && !hit; i++) if (m.kids[i].type == T_OBJ && has_field(m.kids[i], s.a, s.b)) hit = true, p.push_back(i); }
        else if (s.kind == 2) { if (m.type == T_ARR) for (size_t i = 0; i < m.kids.size() && !hit; i++) if (has_value(m.kids[i], s.a)) hit = true, p.push_back(i); }
        else if (m.type == T_OBJ) { for (size_t i = 0; i < m.kids.size() && !hit; i++) if (m.kids[i].named && m.kids[i].name == s.a) hit = true, p.push_back(i); }
        else if (!s.a.empty() && s.a.find_first_not_of("0123456789") == s.a.npos) { size_t z = s.a.find_first_not_of('0'); std::string d = z == s.a.npos ? "0" : s.a.substr(z); if (d.size() < 6) { size_t i = (size_t)atol(d.c_str()); if (i < m.kids.size()) hit = true, p.push_back(i); } }
        if (!hit) return {false, {}}; }
    return {true, p};
}
static zpl_adt_node *real(Tree &t, const Path &p) { zpl_adt_node *n = &t.root; for (size_t k : p) n = n->nodes + k; return n; }
static std::string locate(const M &m, const zpl_adt_node *n, const zpl_adt_node *w, const std::string &at) { if (n == w) return at.empty() ? "/" : at; if (box(m)) for (size_t i = 0; i < m.kids.size(); i++) { std::string r = locate(m.kids[i], n->nodes + i, w, at + "/" + std::to_string(i)); if (!r.empty()) return r; } return ""; }
static void expect(Tree &t, zpl_adt_node *r, const Found &f, const char *what) {
    zpl_adt_node *e = f.first ? real(t, f.second) : NULL; if (r == e) return; std::string a = r ? locate(t.m, &t.root, r, "") : "nothing", b = e ? locate(t.m, &t.root, e, "") : "nothing"; fail("%s returned %s, expected %s", what, a.empty() ? "(no node of the tree)" : a.c_str(), b.c_str());
}
static bool bad(const std::string &s, const char *set) { return s.find_first_of(set) != s.npos; }
PROPERTY(queries, 120000, 3000000, "a query of at least 2 steps that resolves, or fails only at its last step") {
    Tree t; make(g, t); g.note("tree %s", show(t.m).substr(0, 600).c_str()); std::vector<Step> q; Path cur; bool alive = true; size_t n = g.size(6);
    for (size_t i = 0; i < n; i++) { Step s; const M *m = alive ? &at(t.m, cur) : NULL; s.kind = 0; bool aim = m && box(*m) && !m->kids.empty() && g.u(8) != 7;
        size_t k = aim ? g.u(m->kids.size()) : 0; const M *c = aim ? &m->kids[k] : NULL; int kind = (int)g.u(4);
        if (aim && m->type == T_OBJ && kind < 3 && c->named) s.a = c->name;
        else if (aim && m->type == T_OBJ) { s.kind = 1; s.a = c->name; s.b = c->type == T_STR || c->type == T_MSTR ? c->s : box(*c) ? "x" : num_text(*c); }
        else if (aim && kind == 0 && c->type == T_OBJ && !c->kids.empty()) { s.kind = 1; const M &f = g.pick(c->kids); s.a = f.name; s.b = f.type == T_STR || f.type == T_MSTR ? f.s : box(f) ? "x" : num_text(f); }
        else if (aim && kind == 1 && !box(*c)) { s.kind = 2; s.a = c->type == T_STR || c->type == T_MSTR ? c->s : num_text(*c); }
        else if (aim) s.a = std::string(g.u(8) == 7 ? g.u(3) : 0, '0') + std::to_string(k);
        else { s.kind = (int)g.u(4) % 3; s.a = g.u(8) == 7 ? std::to_string(g.u64any()) + (g.boolean() ? "" : "5") : g.u(3) ? std::to_string(g.u(9)) + (g.u(6) == 5 ? "x" : "") : gen_name(g, false); s.b = gen_text(g); }
        if (s.kind == 0 && g.u(24) == 23) s.a += g.pickc("xa1 ");
        // what the notation cannot express
        if (bad(s.a, "/") || bad(s.b, "/")) throw Discard(); if (s.kind == 0 ? s.a.empty() || s.a[0] == '[' : bad(s.a, "=]") || bad(s.b, "]")) throw Discard();
        q.push_back(s); Found f = walk(t.m, q); alive = f.first; cur = f.second; if (!alive && g.boolean()) break; }
    std::string text = g.u(4) == 3 ? "/" : ""; for (size_t i = 0; i < q.size(); i++) text += (i ? "/" : "") + q[i].text(); if (!q.empty() && g.u(10) == 9) text += "/";
    g.note("query %s", esc(text).c_str()); Exact e(text, true); Found f = walk(t.m, q); zpl_adt_node *r = zpl_adt_query(&t.root, e.c()); expect(t, r, f, "the query"); REQUIRE(text == e.c(), "the query text was changed"); same_tree(t.m, &t.root, "");
    for (auto &s : q) if (s.kind) { g.label(s.kind == 1 ? "[field=value]" : "[value]"); break; } g.label(f.first ? "found" : "nothing");
    std::vector<Step> q1 = q; if (!q1.empty()) q1.pop_back(); if (q.size() >= 2 && walk(t.m, q1).first) g.nontrivial(); zpl_adt_destroy_branch(&t.root);
}
static bool find_ref(const M &m, const std::string &name, bool deep, Path &p) { if (m.type != T_OBJ) return false; for (size_t i = 0; i < m.kids.size(); i++) if (m.kids[i].named && m.kids[i].name == name) { p.push_back(i); return true; } if (deep) for (size_t i = 0; i < m.kids.size(); i++) { p.push_back(i); if (find_ref(m.kids[i], name, true, p)) return true; p.pop_back(); } return false; }
PROPERTY(by_name, 60000, 1500000, "a search of an object of at least 3 nodes that finds a node below the first level, or nothing") {
    Tree t; make(g, t); std::string name = g.u(3) ? gen_name(g, true) : std::string(1, g.pickc("abcA1")); bool deep = g.u(3); g.note("tree %s find %s deep %d", show(t.m).substr(0, 600).c_str(), esc(name).c_str(), deep); Path p; Found f; f.first = find_ref(t.m, name, deep, p); f.second = p;
    Exact e(name, true); expect(t, zpl_adt_find(&t.root, e.c(), deep), f, "the search"); if (t.m.type == T_OBJ && count_nodes(t.m) >= 3 && (!f.first || p.size() > 1)) g.nontrivial(); zpl_adt_destroy_branch(&t.root);
}
PROPERTY(any_text, 60000, 1500000, "a query text of at least 2 segments with a bracket") {
    Tree t; make(g, t); std::string s = g.u(3) ? g.str(24, "a/[]=01bxy.\\ ") : g.bytes(g.size(40)); if (g.u(40) == 39) s += std::string(60000 + g.u(12000), 'a') + g.str(20, "/[]=a"); while (s.find('\0') != s.npos) s.erase(s.find('\0'), 1); g.note("query %s", esc(s, 200).c_str());
    Exact e(s, true); zpl_adt_node *r = zpl_adt_query(&t.root, e.c()); if (r) REQUIRE(!locate(t.m, &t.root, r, "").empty(), "the query returned something that is no node of the tree"); REQUIRE(s == e.c(), "the query text was changed"); same_tree(t.m, &t.root, ""); size_t k = s.find('/'); if (k != s.npos && k + 1 < s.size() && bad(s, "[]")) g.nontrivial(); zpl_adt_destroy_branch(&t.root); t.release(); REQUIRE(t.mt.live == 0, "leak");
}
// Names and indices as long as the library's own text buffers and longer: every character counts.
PROPERTY(long_steps, 600, 20000, "a name or an index of at least 65535 characters is asked for") {
    static const size_t L[] = {65533, 65534, 65535, 65536, 65537, 70000, 131072}; Tree t; size_t len = g.u(4) ? g.pick(std::vector<size_t>(L, L + 7)) : 65000 + g.u(70000), n = 1 + g.u(4); bool deep = g.boolean(); t.m.type = g.u(3) ? T_OBJ : T_ARR;
    memset(&t.root, 0, sizeof t.root); zpl_adt_make_branch(&t.root, meter_allocator(t.mt), NULL, t.m.type == T_ARR); std::string base(len, 'a'); auto tail = [&] { return g.str(3, "ab1"); }; auto cut = [&] { return base.substr(0, len - g.u(4)) + tail(); };
    for (size_t i = 0; i < n; i++) { M c; c.named = true; c.name = cut(); const char *nm = t.hold(c.name); if (deep) { c.type = T_OBJ; M k; k.named = true; k.name = "x"; k.type = T_INT; k.i = (int64_t)i; c.kids.push_back(k); zpl_adt_append_int(zpl_adt_append_obj(&t.root, nm), "x", k.i); } else { c.type = T_INT; c.i = (int64_t)i; zpl_adt_append_int(&t.root, nm, c.i); } t.m.kids.push_back(c); }
    std::vector<Step> q; Step s; s.kind = 0; if (t.m.type == T_ARR) { s.a = std::string(len - g.u(4), '0') + std::to_string(g.u(n + 1)); if (g.u(4) == 3) s.a += g.pickc("x1 "); } else s.a = g.u(3) ? g.pick(t.m.kids).name : cut(); q.push_back(s); if (deep && g.boolean()) { s.a = "x"; q.push_back(s); }
    std::string text = g.u(4) == 3 ? "/" : ""; for (size_t i = 0; i < q.size(); i++) text += (i ? "/" : "") + q[i].text(); g.note("%s of %zu, names of %zu and more characters, query of %zu characters ending in %s", t.m.type == T_ARR ? "array" : "object", n, len - 3, text.size(), text.substr(text.size() - 8).c_str());
    Exact e(text, true); Found f = walk(t.m, q); expect(t, zpl_adt_query(&t.root, e.c()), f, "the query"); if (t.m.type == T_OBJ && q.size() == 1) expect(t, zpl_adt_find(&t.root, e.c() + (text[0] == '/'), false), f, "the search"); if (q[0].a.size() >= 65535) g.nontrivial(); zpl_adt_destroy_branch(&t.root); t.release(); REQUIRE(t.mt.live == 0, "%ld blocks remain", t.mt.live);
}
