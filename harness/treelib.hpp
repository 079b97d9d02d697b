// ideal document trees, number literals and a counting allocator (shared by J01..J03, V01, U01, D01..D03)
#pragma once
#include "zh.hpp"
#include <cmath>
#include <memory>
struct Meter { long live = 0, budget = -1, asked = 0; };                    // budget < 0: unlimited
static ZPL_ALLOCATOR_PROC(meter_proc) {
    Meter *m = (Meter *)allocator_data;
    if (type == ZPL_ALLOCATION_ALLOC || (type == ZPL_ALLOCATION_RESIZE && size > 0)) { m->asked++; if (m->budget == 0) return NULL; if (m->budget > 0) m->budget--; }
    void *r = zpl_heap_allocator_proc(NULL, type, size, alignment, old_memory, old_size, flags);
    if (type == ZPL_ALLOCATION_ALLOC || (type == ZPL_ALLOCATION_RESIZE && !old_memory && size > 0)) { if (r) m->live++; }
    else if ((type == ZPL_ALLOCATION_FREE || (type == ZPL_ALLOCATION_RESIZE && size == 0)) && old_memory) m->live--;
    return r;
}
static zpl_allocator meter_allocator(Meter &m) { zpl_allocator a; a.proc = meter_proc; a.data = &m; return a; }

struct Lit { std::string text; bool real; int64_t i; double v; };           // a number literal and what it denotes
static bool near(double a, double b, double rel) { return a == b || (!std::isinf(a) && !std::isinf(b) && std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b))); }
static std::string digits(Gen &g, size_t lo, size_t hi) { std::string s; size_t n = lo + g.size(hi - lo); int style = (int)g.u(6); for (size_t i = 0; i < n; i++) s += style == 0 ? '0' : style == 1 ? '9' : style == 2 && i + 1 < n ? '0' : (char)('0' + g.u(10)); return s; }
static Lit lit_of_decimal(std::string sign, std::string ip, std::string fp, bool dot, std::string es) {
    Lit l; l.text = sign + ip + (dot ? "." + fp : "") + es; l.real = dot; l.i = 0;
    bool neg = sign == "-"; long e = es.empty() ? 0 : strtol(es.c_str() + 1, 0, 10);
    if (!dot) { unsigned __int128 v = 0; bool big = false; for (char c : ip) { v = v * 10 + (c - '0'); if (v > ((unsigned __int128)1 << 70)) big = true, v = (unsigned __int128)1 << 70; }
        if (v) for (long k = 0; k < e; k++) { v *= 10; if (v > ((unsigned __int128)1 << 70)) big = true, v = (unsigned __int128)1 << 70; }
        if (e < 0 || big || v > ((unsigned __int128)1 << 63) - !neg) l.real = true; else l.i = neg ? (int64_t)(0 - (u64)v) : (int64_t)v; }
    l.v = l.real ? strtod((sign + (ip.empty() ? "0" : ip) + (dot ? "." + fp : "") + es).c_str(), 0) : (double)l.i; return l;
}
static Lit gen_lit(Gen &g, bool plus = true, bool hex = true) {
    for (;;) {
        std::string sign = g.u(3) == 2 ? "-" : plus && g.u(8) == 7 ? "+" : "";
        switch (g.u(8)) {
            case 0: case 1: { int64_t v = g.boolean() ? g.i64any() : (int64_t)g.u(1000); std::string t = std::to_string(v); if (t[0] == '-') sign = "-", t.erase(0, 1); return lit_of_decimal(sign, t, "", false, ""); }
            case 2: return lit_of_decimal(sign, digits(g, 1, g.u(4) ? 18 : 40), "", false, "");
            case 3: { if (!hex) break; u64 v = g.u64any(); char b[40]; snprintf(b, sizeof b, g.boolean() ? "%s0x%llx" : "%s0X%llX", sign.c_str(), (unsigned long long)v); std::string t = b; if (g.u(4) == 3) t.insert(t.find_first_of("xX") + 1, g.u(3), '0'); Lit l; l.text = t; l.real = false; l.i = (int64_t)(sign == "-" ? 0 - v : v); l.v = (double)l.i; return l; }
            case 4: case 5: case 6: { std::string ip = digits(g, 0, g.u(4) ? 9 : 25), fp = digits(g, ip.empty(), g.u(4) ? 9 : 25); std::string es; if (g.u(3) == 2) es = std::string(1, g.pickc("eE")) + (g.u(3) == 2 ? "-" : g.u(2) ? "+" : "") + std::to_string(g.u(g.u(4) ? 20 : 250)); Lit l = lit_of_decimal(sign, ip, fp, true, es); if (l.v != 0 && !(std::fabs(l.v) > 1e-280 && std::fabs(l.v) < 1e280)) break; return l; }
            default: { std::string es = std::string(1, g.pickc("eE")) + (g.u(3) == 2 ? "-" : g.u(3) == 2 ? "+" : "") + std::to_string(g.u(g.u(4) ? 20 : 250)); Lit l = lit_of_decimal(sign, digits(g, 1, 18), "", false, es); if (l.v != 0 && !(std::fabs(l.v) > 1e-280 && std::fabs(l.v) < 1e280)) break; return l; }
        }
    }
}

enum { T_ARR = ZPL_ADT_TYPE_ARRAY, T_OBJ = ZPL_ADT_TYPE_OBJECT, T_STR = ZPL_ADT_TYPE_STRING, T_MSTR = ZPL_ADT_TYPE_MULTISTRING, T_INT = ZPL_ADT_TYPE_INTEGER, T_REAL = ZPL_ADT_TYPE_REAL };
struct M { int type = T_OBJ; bool named = false; std::string name, s; int64_t i = 0; double v = 0; double slack = 1e-12; int props = 0; std::vector<M> kids; };
static std::string path_of(const std::string &p, const M &m, size_t k) { return p + "/" + (m.named ? m.name : std::to_string(k)); }
static void same_tree(const M &m, const zpl_adt_node *n, const std::string &at, bool parents = true) {
    if (m.type == T_REAL && m.v == 0 && m.slack < 0 && n->type == T_INT) { REQUIRE(n->integer == 0, "%s: %lld, expected zero", at.c_str(), (long long)n->integer); return; } // a zero set by the program is written without fraction
    REQUIRE((int)n->type == m.type, "%s: node type %d, expected %d", at.c_str(), (int)n->type, m.type);
    if (m.named) REQUIRE(n->name && m.name == n->name, "%s: name %s, expected %s", at.c_str(), n->name ? esc(n->name).c_str() : "(none)", esc(m.name).c_str());
    if (m.type == T_STR || m.type == T_MSTR) REQUIRE(n->string && m.s == n->string, "%s: string %s, expected %s", at.c_str(), n->string ? esc(n->string).c_str() : "(none)", esc(m.s).c_str());
    else if (m.type == T_INT) REQUIRE(n->integer == m.i, "%s: integer %lld, expected %lld", at.c_str(), (long long)n->integer, (long long)m.i);
    else if (m.type == T_REAL) { if (m.props >= ZPL_ADT_PROPS_NAN && m.props <= ZPL_ADT_PROPS_NULL) REQUIRE((int)n->props == m.props, "%s: literal kind %d, expected %d", at.c_str(), (int)n->props, m.props);
        REQUIRE(std::isnan(m.v) ? std::isnan(n->real) : (near(n->real, m.v, m.slack < 0 ? 1e-12 : m.slack) || (m.slack < 0 && std::fabs(n->real - m.v) <= -m.slack)), "%s: real %.17g, expected %.17g", at.c_str(), n->real, m.v); }
    else { REQUIRE(n->nodes, "%s: no storage", at.c_str()); REQUIRE(zpl_array_count(n->nodes) == (zpl_isize)m.kids.size(), "%s: %ld children, expected %zu", at.c_str(), (long)zpl_array_count(n->nodes), m.kids.size());
        for (size_t k = 0; k < m.kids.size(); k++) { if (parents) REQUIRE(n->nodes[k].parent == n, "%s: child %zu names another node as its container", at.c_str(), k); same_tree(m.kids[k], n->nodes + k, path_of(at, m.kids[k], k), parents); } }
}
static size_t count_nodes(const M &m) { size_t n = 1; for (auto &k : m.kids) n += count_nodes(k); return n; }
static size_t depth_of(const M &m) { size_t d = 0; for (auto &k : m.kids) d = std::max(d, depth_of(k)); return d + 1; }
