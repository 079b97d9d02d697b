// C01: dynamic arrays
#include "zh.hpp"
// heap allocator that can be told to refuse the next request for memory
static bool refuse; static int refused;
static void *flaky(void *, zpl_alloc_type t, zpl_isize size, zpl_isize al, void *old, zpl_isize os, zpl_u64 fl) {
    if (refuse && t == ZPL_ALLOCATION_ALLOC) { refused++; return 0; }
    zpl_allocator h = zpl_heap_allocator(); return h.proc(h.data, t, size, al, old, os, fl);
}
struct E24 { u64 a, b, c; }; struct E3 { unsigned char a[3]; };
template <class T> static T mk(u64 v) { T t; unsigned char *p = (unsigned char *)&t; u64 s = v; for (size_t i = 0; i < sizeof t; i += 1) p[i] = (unsigned char)(i < 8 ? v >> (8 * i) : splitmix(s)); return t; }
template <class T> static void history(Gen &g) {
    zpl_allocator a; a.proc = flaky; a.data = 0; refuse = false; refused = 0; u64 next = 1;
    std::vector<T> m; T *x = 0; size_t maxm = 0; bool shifted = false, moved = false;
    if (g.boolean()) { REQUIRE(zpl_array_init(x, a), "init failed"); } else { size_t c = g.size(20); g.note("init_reserve %zu", c); REQUIRE(zpl_array_init_reserve(x, a, (zpl_isize)c), "init_reserve failed"); REQUIRE(zpl_array_capacity(x) >= (zpl_isize)c, "reserved %zu, capacity %ld", c, (long)zpl_array_capacity(x)); }
    auto verify = [&](T *x, const std::vector<T> &m, const char *w) {
        REQUIRE(zpl_array_count(x) == (zpl_isize)m.size(), "count is %ld, expected %zu, after %s", (long)zpl_array_count(x), m.size(), w);
        REQUIRE(zpl_array_capacity(x) >= zpl_array_count(x), "capacity %ld below count %ld after %s", (long)zpl_array_capacity(x), (long)zpl_array_count(x), w);
        REQUIRE(zpl_array_elem_size(x) == (zpl_isize)sizeof(T), "element size %ld after %s", (long)zpl_array_elem_size(x), w);
        for (size_t i = 0; i < m.size(); i++) REQUIRE(!memcmp(&x[i], &m[i], sizeof(T)), "element %zu of %zu is %s, expected %s, after %s", i, m.size(), esc(&x[i], sizeof(T)).c_str(), esc(&m[i], sizeof(T)).c_str(), w);
        if (!m.empty()) { REQUIRE(!memcmp(&zpl_array_front(x), &m[0], sizeof(T)), "front"); REQUIRE(!memcmp(&zpl_array_back(x), &m.back(), sizeof(T)), "back"); REQUIRE(zpl_array_end(x) == x + m.size() - 1, "end"); }
        zpl_allocator b = zpl_array_allocator(x); REQUIRE(b.proc == flaky, "the array forgot its allocator after %s", w);
    };
    int nops = 1 + (int)g.size(60);
    for (int k = 0; k < nops; k++) {
        const char *w = ""; T *before = x; int op = (int)g.u(18); bool nomem = g.u(12) == 11; refuse = nomem && (op <= 6 || op == 12 || op == 13 || op == 14); refused = 0; std::vector<T> old = m; zpl_b8 r = true;
        switch (op) {
            case 0: case 1: case 2: { w = "append"; T v = mk<T>(next++); r = zpl_array_append(x, v); m.push_back(v); break; }
            case 3: { w = "append of an own element"; if (m.empty()) break; size_t i = g.u(m.size()); m.push_back(m[i]); r = zpl_array_append(x, x[i]); break; }
            case 4: { w = "append_at"; size_t i = g.u(m.size() + 1); g.note("append_at %zu of %zu", i, m.size()); T v = mk<T>(next++); r = zpl_array_append_at(x, v, (zpl_isize)i); m.insert(m.begin() + i, v); shifted |= i < old.size(); break; }
            case 5: { w = "appendv"; std::vector<T> v; size_t n = g.size(40); for (size_t i = 0; i < n; i++) v.push_back(mk<T>(next++)); Exact e(std::string((char *)v.data(), n * sizeof(T))); g.note("appendv %zu", n); r = zpl_array_appendv(x, (T *)e.p, (zpl_isize)n); m.insert(m.end(), v.begin(), v.end()); break; }
            case 6: { w = "appendv_at"; std::vector<T> v; size_t n = g.size(20), i = g.u(m.size() + 1); for (size_t q = 0; q < n; q++) v.push_back(mk<T>(next++)); Exact e(std::string((char *)v.data(), n * sizeof(T))); g.note("appendv_at %zu elements, at %zu of %zu", n, i, m.size()); r = zpl_array_appendv_at(x, (T *)e.p, (zpl_isize)n, (zpl_isize)i); m.insert(m.begin() + i, v.begin(), v.end()); shifted |= n && i < old.size(); break; }
            case 7: { w = "pop"; if (m.empty()) break; zpl_array_pop(x); m.pop_back(); break; }
            case 8: case 9: { w = "remove_at"; if (m.empty()) break; zpl_isize i = (zpl_isize)g.u(m.size()); g.note("remove_at %ld of %zu", (long)i, m.size()); zpl_array_remove_at(x, i); m.erase(m.begin() + i); shifted |= (size_t)i < m.size(); break; }
            case 10: { w = "fill"; size_t lo = g.u(m.size() + 1), hi = lo + g.u(m.size() - lo + 1); T v = mk<T>(next++); g.note("fill %zu..%zu of %zu", lo, hi, m.size()); zpl_array_fill(x, (zpl_isize)lo, (zpl_isize)hi, v); std::fill(m.begin() + lo, m.begin() + hi, v); break; }
            case 11: { w = "clear"; if (g.u(3)) break; zpl_array_clear(x); m.clear(); break; }
            case 12: { w = "resize"; size_t n = g.size(60); g.note("resize %zu -> %zu", m.size(), n); r = zpl_array_resize(x, (zpl_isize)n); if (r && n > m.size()) for (size_t i = m.size(); i < n; i++) x[i] = mk<T>(next + i); size_t o = m.size(); m.resize(n); for (size_t i = o; i < n; i++) m[i] = mk<T>(next + i); next += n; break; }
            case 13: { w = "reserve"; size_t n = g.size(100); g.note("reserve %zu", n); r = zpl_array_reserve(x, (zpl_isize)n); if (r) REQUIRE(zpl_array_capacity(x) >= (zpl_isize)n, "reserved %zu, capacity %ld", n, (long)zpl_array_capacity(x)); break; }
            case 14: { w = "grow"; size_t n = g.size(100); zpl_isize c = zpl_array_capacity(x); g.note("grow %zu", n); r = zpl_array_grow(x, (zpl_isize)n); if (r) REQUIRE(zpl_array_capacity(x) >= (zpl_isize)n && zpl_array_capacity(x) >= c, "grow(%zu) left capacity %ld (was %ld)", n, (long)zpl_array_capacity(x), (long)c); break; }
            case 15: { w = "set_capacity"; size_t n = g.size(60); g.note("set_capacity %zu (count %zu)", n, m.size()); r = zpl_array_set_capacity(x, (zpl_isize)n); if (m.size() > n) m.resize(n); REQUIRE(zpl_array_capacity(x) == (zpl_isize)n, "set_capacity(%zu) left capacity %ld", n, (long)zpl_array_capacity(x)); break; }
            case 16: { w = "copy_init"; T *y = 0; r = zpl_array_copy_init(y, x); verify(y, m, "copy_init"); if (!m.empty()) { y[0] = mk<T>(next++); } zpl_array_free(y); break; }
            default: { w = "assignment through the array"; if (m.empty()) break; size_t i = g.u(m.size()); T v = mk<T>(next++); x[i] = v; m[i] = v; break; }
        }
        refuse = false;
        if (refused) { REQUIRE(!r, "%s claims success though its allocation was refused", w); m = old; } else REQUIRE(r, "%s reports failure", w);
        verify(x, m, w); maxm = std::max(maxm, m.size()); moved |= x != before;
    }
    if (maxm >= 9 && shifted && moved) g.nontrivial();
    zpl_array_free(x);
}
PROPERTY(history, 900000, 20000000, "the array held at least 9 elements, an insertion or removal shifted elements, and storage moved") {
    switch (g.u(6)) { case 0: history<unsigned char>(g); break; case 1: history<unsigned>(g); break; case 2: history<u64>(g); break; case 3: history<E24>(g); break; case 4: history<E3>(g); break; default: history<unsigned short>(g); }
}
// the operations are macros: what they are given may be any expression, and the caller's variables may have any name
template <class T> static void expressions(Gen &g) {
    T *x = 0; T **px = &x; zpl_allocator h = zpl_heap_allocator(); std::vector<T> m; u64 next = 1; bool pick = g.boolean(), removed = false; REQUIRE(zpl_array_init(*px, h), "init failed"); size_t n = 1 + g.size(30);
    for (size_t k = 0; k < n; k++) { T v = mk<T>(next++), w = mk<T>(next++); bool first = g.boolean(); REQUIRE(zpl_array_append(*px, first ? v : w), "append failed"); m.push_back(first ? v : w); }
    auto verify = [&](const char *what) {
        REQUIRE(zpl_array_count(*px) == (zpl_isize)m.size() && zpl_array_elem_size(*px) == (zpl_isize)sizeof(T), "count is %ld, expected %zu, after %s", (long)zpl_array_count(*px), m.size(), what); for (size_t k = 0; k < m.size(); k++) REQUIRE(!memcmp(&x[k], &m[k], sizeof(T)), "element %zu of %zu is wrong after %s", k, m.size(), what);
        if (!m.empty()) { REQUIRE(&zpl_array_front(*px) == x && &zpl_array_front(pick ? x : *px) == x && &zpl_array_back(*px) == x + m.size() - 1 && &zpl_array_back(pick ? x : *px) == x + m.size() - 1 && zpl_array_end(*px) == x + m.size() - 1 && zpl_array_end(pick ? x : *px) == x + m.size() - 1, "front, back or end of an array reached through a pointer is wrong after %s", what); }
    };
    verify("appending");
    for (size_t ops = 1 + g.size(12); ops; ops--) switch (g.u(6)) {
        case 0: { if (m.empty()) break; zpl_isize i = (zpl_isize)(1 + g.u(m.size())); g.note("remove_at(i - 1), i = %ld of %zu", (long)i, m.size()); zpl_array_remove_at(*px, i - 1); m.erase(m.begin() + i - 1); removed = true; verify("remove_at(i - 1)"); break; }
        case 1: { if (m.empty()) break; zpl_isize a = (zpl_isize)g.u(m.size()), b = (zpl_isize)g.u(m.size()); bool c = g.boolean(); g.note("remove_at(c ? %ld : %ld) of %zu", (long)a, (long)b, m.size()); zpl_array_remove_at(*px, c ? a : b); m.erase(m.begin() + (c ? a : b)); removed = true; verify("remove_at(c ? a : b)"); break; }
        case 2: { zpl_isize i = (zpl_isize)g.u(m.size() + 1), n = (zpl_isize)m.size(); T v = mk<T>(next++), w = mk<T>(next++); g.note("fill from i = %ld of %ld", (long)i, (long)n); zpl_array_fill(*px, i, n, pick ? v : w); std::fill(m.begin() + i, m.end(), pick ? v : w); verify("fill(i, n)"); break; }
        case 3: { zpl_isize i = (zpl_isize)g.u(m.size() + 1); T v = mk<T>(next++), w = mk<T>(next++); g.note("append_at(i + 1 - 1), i = %ld of %zu", (long)i, m.size()); REQUIRE(zpl_array_append_at(*px, pick ? v : w, i + 1 - 1), "append_at failed"); m.insert(m.begin() + i, pick ? v : w); verify("append_at(i + 1 - 1)"); break; }
        case 4: { T v[3] = {mk<T>(next), mk<T>(next + 1), mk<T>(next + 2)}; next += 3; size_t o = g.u(3); zpl_isize at = (zpl_isize)g.u(m.size() + 1); g.note("appendv_at(v + %zu, 3 - %zu, %ld)", o, o, (long)at); if (g.boolean()) { REQUIRE(zpl_array_appendv_at(*px, v + o, 3 - o, at + 1 - 1), "appendv_at failed"); m.insert(m.begin() + at, v + o, v + 3); } else { REQUIRE(zpl_array_appendv(*px, v + o, 3 - o), "appendv failed"); m.insert(m.end(), v + o, v + 3); } verify("appendv"); break; }
        default: { if (m.empty()) break; zpl_isize i = (zpl_isize)g.u(m.size()); g.note("resize(i + 1), i = %ld", (long)i); if (g.boolean()) zpl_array_pop(*px); else { REQUIRE(zpl_array_resize(*px, i + 1), "resize failed"); m.resize((size_t)i + 1); verify("resize"); break; } m.pop_back(); verify("pop"); break; }
    }
    { zpl_array_make(T, made, h); REQUIRE(made && zpl_array_count(made) == 0, "zpl_array_make made no empty array"); T v = mk<T>(next++); REQUIRE(zpl_array_append(made, v) && zpl_array_count(made) == 1 && !memcmp(made, &v, sizeof v), "appending to an array of zpl_array_make"); zpl_array_free(made); }
    T *y = 0, **py = &y; REQUIRE(zpl_array_copy_init(*py, *px), "copy failed"); REQUIRE(zpl_array_count(y) == (zpl_isize)m.size() && (m.empty() || !memcmp(y, m.data(), m.size() * sizeof(T))), "the copy differs"); zpl_array_free(*py); zpl_array_free(*px); if (n >= 4 && removed) g.nontrivial();
}
PROPERTY(expressions, 250000, 5000000, "at least 4 elements, of which one was removed at an index given as an expression") {
    switch (g.u(3)) { case 0: expressions<unsigned char>(g); break; case 1: expressions<u64>(g); break; default: expressions<E24>(g); }
}
