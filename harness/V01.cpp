// V01: CSV parsing and writing are inverse and safe on any text
// @fuzz-quick 6
// @fuzz-thorough 300
#include "treelib.hpp"
#include <deque>
struct Cell { M m; std::string text; };
struct Table { char delim = ','; bool header = false; std::vector<std::vector<Cell>> rows; std::string text; std::vector<size_t> ends; bool quoted = false; };
static std::string quote(const std::string &s) { std::string r = "\""; for (char c : s) { if (c == '"') r += '"'; r += c; } return r + "\""; }
static bool is_number(const std::string &s) { // a whole text in the number notation
    size_t i = 0, d = 0, f = 0; auto D = [&](size_t k) { return k < s.size() && s[k] >= '0' && s[k] <= '9'; }; auto X = [&](size_t k) { return k < s.size() && isxdigit((unsigned char)s[k]); }; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
    if (i + 2 < s.size() && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') && X(i + 2)) { i += 2; while (X(i)) i++; return i == s.size(); }
    while (D(i)) i++, d++; if (i < s.size() && s[i] == '.') { i++; while (D(i)) i++, f++; } if (!d && !f) return false; if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { size_t k = i + 1; if (k < s.size() && (s[k] == '+' || s[k] == '-')) k++; if (D(k)) { while (D(k)) k++; i = k; } } return i == s.size(); }
static bool sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }
static Cell gen_cell(Gen &g, Table &t, bool head, bool single) {
    Cell c; c.m.type = T_STR; switch (g.u(7)) {
        case 0: case 1: { std::string s = g.u(3) ? g.str(8, "a,b\"\n;| 1\t") : g.bytes(g.size(10)); while (s.find('\0') != s.npos) s.erase(s.find('\0'), 1); c.m.s = s; c.text = quote(s); t.quoted = true; break; }
        case 2: if (!single) { c.text = ""; break; } /* an empty unquoted cell of a single column is a blank line */ /* fall through */
        case 3: case 4: { std::string s = g.str(8, "abxen \"'.:;|e-\xc3\xa9" "2"); std::string r; for (char ch : s) if (ch != t.delim) r += ch; while (!r.empty() && (sp(r[0]) || r[0] == '"')) r.erase(0, 1); while (!r.empty() && sp(r.back())) r.pop_back(); if (r.empty() || is_number(r)) r = "x"; c.m.s = c.text = r; break; }
        default: { Lit l = gen_lit(g); c.text = l.text; if (l.text.find(t.delim) != l.text.npos) { l.text = "7"; l.real = false; l.i = 7; c.text = "7"; } if (head) c.m.s = l.text; else { c.m.type = l.real ? T_REAL : T_INT; c.m.i = l.i; c.m.v = l.v; } } }
    return c;
}
static std::string pad(Gen &g, const Table &t) { std::string s; if (g.u(6) == 5) for (size_t i = 0, n = 1 + g.u(3); i < n; i++) { char c = g.pickc(" \t\r\v"); if (c != t.delim) s += c; } return s; }
static Table gen_table(Gen &g) {
    Table t; t.delim = g.u(2) ? ',' : g.pickc(";|\t: ^"); t.header = g.boolean(); size_t cols = 1 + g.size(5), rows = 1 + g.size(6); t.text = "";
    for (size_t r = 0; r < rows; r++) { t.rows.emplace_back(); if (g.u(8) == 7) t.text += std::string(1 + g.u(2), '\n');
        for (size_t c = 0; c < cols; c++) { Cell x = gen_cell(g, t, t.header && r == 0, cols == 1); t.text += pad(g, t) + x.text + pad(g, t); t.rows[r].push_back(x); if (c + 1 < cols) t.text += t.delim; }
        t.ends.push_back(t.text.size()); if (r + 1 < rows || g.u(3)) t.text += g.u(4) ? "\n" : t.delim == '\r' ? "\n" : "\r\n"; }
    return t;
}
static void compare(const Table &t, const zpl_adt_node *r, bool relaxed) {
    REQUIRE(r->nodes && (int)r->type == (t.header ? T_OBJ : T_ARR), "the root has type %d", r->type); size_t cols = t.rows[0].size(); REQUIRE(zpl_array_count(r->nodes) == (zpl_isize)cols, "%ld columns, expected %zu", (long)zpl_array_count(r->nodes), cols);
    for (size_t c = 0; c < cols; c++) { M col; col.type = T_ARR; if (t.header) col.named = true, col.name = t.rows[0][c].m.s; for (size_t k = t.header; k < t.rows.size(); k++) col.kids.push_back(t.rows[k][c].m); if (!t.header) REQUIRE(!r->nodes[c].name, "column %zu has a name", c); same_tree(col, r->nodes + c, "/column " + std::to_string(c)); } (void)relaxed;
}
static std::string write(zpl_adt_node *n, char delim, Meter &mt, bool file) {
    if (file) { zpl_file f; REQUIRE(zpl_file_stream_new(&f, zpl_heap()), "no stream"); if (delim == ',') zpl_csv_write(&f, n); else zpl_csv_write_delimiter(&f, n, delim); zpl_isize sz = 0; zpl_u8 *b = zpl_file_stream_buf(&f, &sz); std::string s((char *)b, (size_t)sz); zpl_file_close(&f); return s; }
    zpl_string z = delim == ',' ? zpl_csv_write_string(meter_allocator(mt), n) : zpl_csv_write_string_delimiter(meter_allocator(mt), n, delim); REQUIRE(z, "writing failed"); std::string s(z, (size_t)zpl_string_length(z)); zpl_string_free(z); return s;
}
static zpl_u8 parse(zpl_adt_node *r, Exact &e, const Table &t, Meter &mt) { memset(r, 0x55, sizeof *r); return t.delim == ',' ? zpl_csv_parse(r, e.c(), meter_allocator(mt), t.header) : zpl_csv_parse_delimiter(r, e.c(), meter_allocator(mt), t.header, t.delim); }
PROPERTY(tables, 120000, 3000000, "at least 2 rows and 2 columns with a quoted cell") {
    Table t = gen_table(g); g.note("delimiter %s header %d: %s", esc(std::string(1, t.delim)).c_str(), t.header, esc(t.text, 600).c_str()); Exact e(t.text, true); Meter mt; zpl_csv_object r; zpl_u8 err = parse(&r, e, t, mt); REQUIRE(!err, "a valid table is rejected with error %d", err); compare(t, &r, false);
    std::string w = write(&r, t.delim, mt, g.boolean()); g.note("written %s", esc(w, 600).c_str()); Exact e2(w, true); zpl_csv_object r2; err = parse(&r2, e2, t, mt); REQUIRE(!err, "the written table is rejected with error %d", err); compare(t, &r2, true); std::string w2 = write(&r2, t.delim, mt, false); REQUIRE(w2 == w, "written again: %s", esc(w2, 600).c_str());
    zpl_csv_free(&r); zpl_csv_free(&r2); REQUIRE(mt.live == 0, "%ld blocks remain", mt.live); if (t.header) g.label("header"); if (t.rows.size() >= 2 && t.rows[0].size() >= 2 && t.quoted) g.nontrivial();
}
PROPERTY(built, 60000, 1500000, "at least 2 rows and 2 columns with a quote, delimiter or line break in a cell") {
    Table t; t.delim = g.u(2) ? ',' : g.pickc(";|\t"); t.header = g.boolean(); size_t cols = 1 + g.size(5), rows = g.size(6) + !t.header; Meter mt; zpl_adt_node root; memset(&root, 0, sizeof root); zpl_adt_make_branch(&root, meter_allocator(mt), NULL, !t.header); std::deque<std::string> pool; bool special = false; t.rows.resize(rows + t.header);
    for (size_t c = 0; c < cols; c++) { std::string nm = g.str(6, "ab,\"\n 1"); if (t.header) { Cell h; h.m.type = T_STR; h.m.s = nm; t.rows[0].push_back(h); pool.push_back(nm); } zpl_adt_append_arr(&root, t.header ? pool.back().c_str() : NULL);
        for (size_t k = 0; k < rows; k++) { Cell x; zpl_adt_node *col = root.nodes + c; if (g.u(3)) { x.m.type = T_STR; x.m.s = g.u(3) ? g.str(8, "a,b\"\n;| 1\t") : std::to_string(g.u(100)); special |= x.m.s.find_first_of("\",\n") != x.m.s.npos; pool.push_back(x.m.s); zpl_adt_append_str(col, NULL, pool.back().c_str()); } else if (g.boolean()) { x.m.type = T_INT; x.m.i = g.i64any(); zpl_adt_append_int(col, NULL, x.m.i); } else { x.m.type = T_REAL; x.m.v = (double)g.range(-1000000, 1000000) / 64; x.m.slack = -1e-6; zpl_adt_append_flt(col, NULL, x.m.v); } t.rows[k + t.header].push_back(x); } }
    std::string w = write(&root, t.delim, mt, g.boolean()); g.note("header %d written %s", t.header, esc(w, 600).c_str()); Exact e(w, true); zpl_csv_object r; zpl_u8 err = parse(&r, e, t, mt); REQUIRE(!err, "the written table is rejected with error %d", err); compare(t, &r, true); zpl_csv_free(&r); zpl_adt_destroy_branch(&root); REQUIRE(mt.live == 0, "%ld blocks remain", mt.live); if (rows >= 2 && cols >= 2 && special) g.nontrivial();
}
PROPERTY(faults, 60000, 1500000, "a table of at least 3 rows") {
    Table t = gen_table(g); std::string s = t.text; const char *what; int want = -1; size_t k;
    switch (g.u(4)) { case 0: what = "row too long"; if (t.rows.size() < 2) throw Discard(); k = g.u(t.rows.size()); s.insert(t.ends[k], std::string(1, t.delim) + (g.boolean() ? "1" : "x")); want = ZPL_CSV_ERROR_MISMATCHED_ROWS; break;
        case 1: { what = "row too short"; if (t.rows.size() < 2 || t.rows[0].size() < 2) throw Discard(); s = ""; k = g.u(t.rows.size()); for (size_t r = 0; r < t.rows.size(); r++) { size_t n = t.rows[r].size() - (r == k); if (n == 1 && t.rows[r][0].text.empty()) throw Discard(); for (size_t c = 0; c < n; c++) s += (c ? std::string(1, t.delim) : "") + t.rows[r][c].text; s += "\n"; } want = ZPL_CSV_ERROR_MISMATCHED_ROWS; break; }
        case 2: what = "open quote"; s += (s.empty() || s.back() != '\n' ? std::string("\n") : "") + "\"abc" + (g.boolean() ? "\"\"" : "") + (g.boolean() ? "\n1,2" : ""); want = ZPL_CSV_ERROR_UNEXPECTED_END_OF_INPUT; break;
        default: what = "nothing"; s = g.str(6, t.delim == '\t' || t.delim == ' ' ? "\n\r" : " \n\t\r"); want = ZPL_CSV_ERROR_UNEXPECTED_END_OF_INPUT; }
    g.note("%s, delimiter %s: %s", what, esc(std::string(1, t.delim)).c_str(), esc(s, 600).c_str()); Exact e(s, true); Meter mt; zpl_csv_object r; zpl_u8 err = parse(&r, e, t, mt); REQUIRE(err == want, "a faulty table (%s) gives error %d, expected %d", what, err, want); zpl_csv_free(&r); REQUIRE(mt.live == 0, "%ld blocks remain", mt.live); g.label(what); if (t.rows.size() >= 3) g.nontrivial();
}
PROPERTY(any_text, 150000, 4000000, "a text of at least 2 lines with a quote") {
    Table t; if (g.boolean()) { t = gen_table(g); for (size_t i = 0, n = 1 + g.u(4); i < n; i++) { size_t p = g.u(t.text.size() + 1); switch (g.u(3)) { case 0: t.text.insert(p, 1, g.pickc("\",\n a1\r\t")); break; case 1: if (p < t.text.size()) t.text.erase(p, 1 + g.u(3)); break; default: t.text = t.text.substr(0, p) + t.text.substr(g.u(t.text.size() + 1)); } } } else { t.text = g.u(3) ? g.str(40, "\",\n;a1. \t\r") : g.bytes(g.size(60)); t.delim = g.pickc(",;\t| a"); t.header = g.boolean(); }
    std::string &s = t.text; while (s.find('\0') != s.npos) s.erase(s.find('\0'), 1); g.note("delimiter %s header %d text %s", esc(std::string(1, t.delim)).c_str(), t.header, esc(s, 600).c_str()); Exact e(s, true); Meter mt; bool tight = g.u(6) == 5; if (tight) mt.budget = (long)g.u(8); zpl_csv_object r; zpl_u8 err = parse(&r, e, t, mt); bool ran_out = mt.budget == 0; mt.budget = -1;
    if (!err) { size_t n = (size_t)zpl_array_count(r.nodes), rows = n ? (size_t)zpl_array_count(r.nodes[0].nodes) : 0; REQUIRE(n > 0, "a table without columns is accepted"); for (size_t i = 0; i < n; i++) { REQUIRE((size_t)zpl_array_count(r.nodes[i].nodes) == rows, "columns of %zu and %ld cells", rows, (long)zpl_array_count(r.nodes[i].nodes)); for (size_t k = 0; k < rows; k++) { auto &c = r.nodes[i].nodes[k]; REQUIRE(c.type == T_STR || c.type == T_INT || c.type == T_REAL, "cell type %d", c.type); if (c.type == T_STR) (void)strlen(c.string); } if (t.header) (void)strlen(r.nodes[i].name); }
        std::string w = write(&r, t.delim, mt, false); if (strchr(",;\t|", t.delim)) { bool blank = false; if (n == 1) blank = true; if (!blank) { Exact e2(w, true); zpl_csv_object r2; zpl_u8 err2 = parse(&r2, e2, t, mt); REQUIRE(!err2, "the written table %s is rejected with error %d", esc(w).c_str(), err2); std::string w2 = write(&r2, t.delim, mt, false); REQUIRE(w2 == w, "written %s, written again %s", esc(w).c_str(), esc(w2).c_str()); zpl_csv_free(&r2); } } }
    else if (ran_out) g.label("out of memory"); zpl_csv_free(&r); REQUIRE(mt.live == 0, "%ld blocks remain", mt.live); if (s.find('\n') != s.npos && s.find('"') != s.npos) g.nontrivial();
}
