// documents in the parser's notation together with the tree they denote (J01, J02)
#pragma once
#include "treelib.hpp"
struct JDoc { M root; std::string text; bool braced = true; std::vector<size_t> seps, assigns; bool fancy = false; };
static std::string gap(Gen &g, JDoc &d, bool newline) {                      // white space and comments
    std::string s; if (g.u(3)) return s;
    for (size_t i = 0, n = 1 + g.u(3); i < n; i++) switch (g.u(newline ? 6 : 4)) {
        case 0: case 1: s += ' '; break; case 2: s += '\t'; break;
        case 3: d.fancy = true; s += "/*" + [&] { std::string t = g.str(8, "a*/ \"'{[}],:="); size_t k; while ((k = t.find("*/")) != t.npos) t.erase(k, 1); if (!t.empty() && t.back() == '*' && g.boolean()) t += ' '; return t; }() + "*/"; break;
        case 4: s += '\n'; break; default: d.fancy = true; s += "//" + g.str(8, "a*/ \"'{[}],:=") + "\n"; }
    return s;
}
static std::string str_body(Gen &g, char quote) {                            // characters between quotes, escapes kept as written
    std::string s; for (size_t i = 0, n = g.size(12); i < n; i++) { switch (g.u(8)) { case 0: s += '\\'; s += g.pickc("\"'`\\/bfnrtu"); break; case 1: { char c = (char)(1 + g.u(255)); if (c != quote && c != '\\') s += c; break; } case 2: { char c = g.pickc("{}[],:=|\n\"'`/* "); if (c != quote) s += c; break; } default: s += g.pickc("abcxyz019 "); } } return s;
}
static void gen_value(Gen &g, JDoc &d, M &m, int depth, size_t &budget);
static void gen_members(Gen &g, JDoc &d, M &m, int depth, size_t &budget, bool cfg) {
    size_t n = g.size(depth == 0 ? 6 : 4); if (cfg && !n) n = 1; if (n > budget) n = budget; if (cfg && !n) n = 1; budget -= std::min(budget, n);
    for (size_t k = 0; k < n; k++) {
        M c; c.named = true; d.text += cfg && k == 0 ? "" : gap(g, d, true);
        switch (g.u(4)) {
            case 0: d.fancy = true; c.name = std::string(1, g.pickc("abzAZ_$")) + g.str(5, "ab_19Z"); d.text += c.name; break;
            case 1: d.fancy = true; { c.name = g.str(6, "a b\"{}:,|=\n"); d.text += "'" + c.name + "'"; break; }
            default: { c.name = g.str(6, "abc d'{}:,|="); if (g.u(4) == 3) { c.name += "\\" + std::string(1, g.pickc("\"\\/bfnrt")); if (g.boolean()) c.name += g.str(3, "gxyz"); } if (g.u(12) == 11) c.name += "\\u00e9"; d.text += "\"" + c.name + "\""; } }
        d.text += gap(g, d, true); d.assigns.push_back(d.text.size()); char as = g.u(3) ? ':' : g.pickc(":=|"); if (as != ':') d.fancy = true; d.text += as; d.text += gap(g, d, true);
        gen_value(g, d, c, depth + 1, budget); m.kids.push_back(c); 
        if (k + 1 < n) { d.text += gap(g, d, false); d.seps.push_back(d.text.size()); switch (g.u(6)) { case 4: d.fancy = true; d.text += '|'; break; case 5: d.fancy = true; d.text += '\n'; break; case 3: d.text += gap(g, d, true); d.seps.back() = d.text.size(); d.text += ','; break; default: d.text += ','; } }
        else { if (g.u(4) == 3) { d.fancy = true; d.text += gap(g, d, false) + ","; } d.text += gap(g, d, true); }
    }
    if (!n) d.text += gap(g, d, true);
}
static void gen_items(Gen &g, JDoc &d, M &m, int depth, size_t &budget) {
    m.type = T_ARR; d.text += '['; size_t n = std::min(budget, g.size(5)); budget -= n;
    for (size_t k = 0; k < n; k++) { M c; d.text += gap(g, d, true); gen_value(g, d, c, depth + 1, budget); m.kids.push_back(c); d.text += gap(g, d, true); if (k + 1 < n) { d.seps.push_back(d.text.size()); d.text += ','; } else if (g.u(5) == 4) { d.fancy = true; d.text += ","; } }
    d.text += gap(g, d, true) + "]";
}
static void gen_value(Gen &g, JDoc &d, M &m, int depth, size_t &budget) {
    switch (g.u(depth >= 6 ? 8 : 11)) {
        case 0: { static const struct { const char *t; int p; double v; } k[] = {{"true", ZPL_ADT_PROPS_TRUE, 1}, {"false", ZPL_ADT_PROPS_FALSE, 0}, {"null", ZPL_ADT_PROPS_NULL, 0}, {"Infinity", ZPL_ADT_PROPS_INFINITY, INFINITY}, {"-Infinity", ZPL_ADT_PROPS_INFINITY_NEG, -INFINITY}, {"NaN", ZPL_ADT_PROPS_NAN, NAN}, {"-NaN", ZPL_ADT_PROPS_NAN_NEG, NAN}};
            size_t i = g.u(7); if (i > 2) d.fancy = true; m.type = T_REAL; m.props = k[i].p; m.v = k[i].v; d.text += k[i].t; break; }
        case 1: case 2: case 3: { Lit l = gen_lit(g); m.type = l.real ? T_REAL : T_INT; m.i = l.i; m.v = l.v; d.text += l.text; break; }
        case 4: case 5: case 6: m.type = T_STR; m.s = str_body(g, '"'); d.text += "\"" + m.s + "\""; break;
        case 7: { d.fancy = true; char q = g.pickc("'`"); m.type = q == '`' ? T_MSTR : T_STR; m.s = str_body(g, q); d.text += q + m.s + q; break; }
        case 8: gen_items(g, d, m, depth, budget); break;
        default: m.type = T_OBJ; d.text += '{'; gen_members(g, d, m, depth, budget, false); d.text += '}'; }
}
static JDoc gen_doc(Gen &g) {
    JDoc d; size_t budget = 40; d.root.type = T_OBJ; int k = (int)g.u(5);
    if (k == 4) { d.braced = false; d.fancy = true; d.text += g.u(3) == 2 ? "\n \t"[g.u(3)] + std::string() : ""; gen_members(g, d, d.root, 0, budget, true); return d; }
    d.text += gap(g, d, true); size_t lead = d.text.size(); (void)lead;
    if (k == 3) gen_items(g, d, d.root, 0, budget); else { d.text += '{'; gen_members(g, d, d.root, 0, budget, false); d.text += '}'; }
    return d;
}
