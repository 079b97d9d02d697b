// C02: fixed buffers and ring buffers
#include "zh.hpp"
#include <deque>
typedef unsigned char u8; typedef unsigned u32; struct S12 { u32 a, b, c; }; typedef S12 s12;
ZPL_RING(static, ra_, u8); ZPL_RING(static, rb_, u32); ZPL_RING(static, rc_, s12);
template <class T> static T mk(u64 v) { T t; memset(&t, 0, sizeof t); memcpy(&t, &v, std::min(sizeof t, sizeof v)); if (sizeof t > 8) memcpy((char *)&t + 8, &v, 4); return t; }
template <class T> static bool eq(const T &a, const T &b) { return !memcmp(&a, &b, sizeof a); }
template <class T> static void buffer_history(Gen &g) {
    T *x; zpl_isize cap = (zpl_isize)g.size(50); g.note("capacity %ld, element size %zu", (long)cap, sizeof(T)); u64 next = 1; zpl_buffer_init(x, zpl_heap_allocator(), cap); std::vector<T> m; bool full = false, refill = false;
    auto verify = [&](T *y, const char *w) {
        REQUIRE(zpl_buffer_count(y) == (zpl_isize)m.size(), "count %ld, expected %zu, after %s", (long)zpl_buffer_count(y), m.size(), w); REQUIRE(zpl_buffer_capacity(y) == cap, "capacity %ld became %ld after %s", (long)cap, (long)zpl_buffer_capacity(y), w);
        for (size_t i = 0; i < m.size(); i++) REQUIRE(eq(y[i], m[i]), "element %zu of %zu is wrong after %s", i, m.size(), w);
        if (!m.empty()) REQUIRE(zpl_buffer_end(y) == y + m.size() - 1, "end is wrong");
    };
    int nops = 1 + (int)g.size(40);
    for (int k = 0; k < nops; k++) {
        const char *w = ""; size_t room = cap - m.size();
        switch (g.u(7)) {
            case 0: case 1: w = "append"; if (room) { T v = mk<T>(next++); zpl_buffer_append(x, v); m.push_back(v); if (full) refill = true; } break;
            case 2: case 3: { w = "appendv"; size_t n = g.u(4) ? g.u(room + 1) : room; std::vector<T> v; for (size_t i = 0; i < n; i++) v.push_back(mk<T>(next++)); Exact e(std::string((char *)v.data(), n * sizeof(T))); g.note("appendv %zu", n); zpl_buffer_appendv(x, (T *)e.p, (zpl_isize)n); m.insert(m.end(), v.begin(), v.end()); if (full && n) refill = true; break; }
            case 4: w = "pop"; if (!m.empty()) { zpl_buffer_pop(x); m.pop_back(); } break;
            case 5: w = "clear"; if (g.u(3) == 0) { zpl_buffer_clear(x); m.clear(); } break;
            default: { w = "copy_init"; T *y; zpl_buffer_copy_init(y, x); verify(y, "copy_init (the copy)"); for (zpl_isize i = 0; i < cap; i++) y[i] = mk<T>(0xEE); verify(x, "copy_init (the original)"); if (g.boolean()) { zpl_buffer_free(y); } else { zpl_buffer_free(x); x = y; for (size_t i = 0; i < m.size(); i++) x[i] = m[i]; } break; }
        }
        if ((zpl_isize)m.size() == cap) full = true;
        verify(x, w);
    }
    if (full && refill && cap >= 2) g.nontrivial();
    zpl_buffer_free(x);
}
PROPERTY(buffer, 600000, 12000000, "capacity at least 2, filled completely at some point and appended to afterwards") {
    switch (g.u(3)) { case 0: buffer_history<u8>(g); break; case 1: buffer_history<u32>(g); break; default: buffer_history<s12>(g); }
}
// the operations are macros: what they are given may be any expression, and the caller's variables may have any name
template <class T> static void buffer_expressions(Gen &g) {
    zpl_isize cap = (zpl_isize)g.size(40), extra = (zpl_isize)g.u(4); T *nx, *ny, **px = &nx; bool pick = g.boolean(); u64 next = 1; std::vector<T> m; g.note("capacity %ld - %ld", (long)(cap + extra), (long)extra); zpl_buffer_init(nx, zpl_heap_allocator(), pick ? cap : cap + extra - extra); bool used = false;
    auto verify = [&](T *y, const char *w) { REQUIRE(zpl_buffer_count(y) == (zpl_isize)m.size() && zpl_buffer_capacity(y) == cap, "count %ld of %ld, expected %zu of %ld, after %s", (long)zpl_buffer_count(y), (long)zpl_buffer_capacity(y), m.size(), (long)cap, w); for (size_t i = 0; i < m.size(); i++) REQUIRE(eq(y[i], m[i]), "element %zu of %zu is wrong after %s", i, m.size(), w); T **py = &y; REQUIRE(zpl_buffer_count(*py) == (zpl_isize)m.size() && zpl_buffer_capacity(pick ? y : *py) == cap && zpl_buffer_allocator(*py).proc == zpl_heap_allocator().proc, "a buffer reached through a pointer differs"); if (!m.empty()) REQUIRE(zpl_buffer_end(*py) == y + m.size() - 1 && zpl_buffer_end(pick ? y : *py) == y + m.size() - 1, "end of a buffer reached through a pointer is wrong after %s", w); };
    for (size_t n = 1 + g.size(16); n; n--) { zpl_isize room = cap - (zpl_isize)m.size();
        switch (g.u(5)) {
            case 0: case 1: { if (!room) break; T v = mk<T>(next++), w = mk<T>(next++); bool c = g.boolean(); zpl_buffer_append(*px, c ? v : w); m.push_back(c ? v : w); verify(nx, "append"); break; }
            case 2: { T v[4]; for (T &x : v) x = mk<T>(next++); zpl_isize k = (zpl_isize)g.u((u64)std::min<zpl_isize>(room, 4) + 1); bool none = g.boolean(); g.note("appendv(none ? 0 : %ld) with room for %ld", (long)k, (long)room); zpl_buffer_appendv(*px, v + 4 - k, none ? 0 : k); if (!none) m.insert(m.end(), v + 4 - k, v + 4); used = true; verify(nx, "appendv"); break; }
            case 3: { if (m.empty()) break; zpl_buffer_pop(*px); m.pop_back(); verify(nx, "pop"); break; }
            default: { zpl_buffer_copy_init(ny, *px); verify(ny, "copy_init"); zpl_buffer_free(pick ? *px : ny); if (pick) nx = ny; verify(nx, "copy_init"); } }
    }
    zpl_buffer_make(T, made, zpl_heap_allocator(), cap + 1); REQUIRE(made && zpl_buffer_count(made) == 0 && zpl_buffer_capacity(made) == cap + 1, "zpl_buffer_make made another buffer"); zpl_buffer_free(made); zpl_buffer_clear(*px); REQUIRE(zpl_buffer_count(nx) == 0, "clear"); zpl_buffer_free(*px); if (used && cap >= 2) g.nontrivial();
}
PROPERTY(buffer_macros, 200000, 4000000, "capacity at least 2 and a block appended whose size is an expression") {
    switch (g.u(3)) { case 0: buffer_expressions<u8>(g); break; case 1: buffer_expressions<u32>(g); break; default: buffer_expressions<s12>(g); }
}
// one implementation of the history per ring instance: the ring's functions are named by the macro
#define RING_HISTORY(NAME, T, R, F) static void NAME(Gen &g) { \
    R r; zpl_isize cap = (zpl_isize)g.size(40); if (cap < 1) cap = 1; g.note("ring of %ld, element size %zu", (long)cap, sizeof(T)); u64 next = 1; ZPL_JOIN2(F, init)(&r, zpl_heap_allocator(), cap); \
    std::deque<T> m; bool over = false; int through = 0; int nops = 1 + (int)g.size(80); \
    auto push = [&](T v) { m.push_back(v); if ((zpl_isize)m.size() > cap) { m.pop_front(); over = true; } }; \
    for (int k = 0; k < nops; k++) { \
        switch (g.u(8)) { \
            case 0: case 1: case 2: { T v = mk<T>(next++); g.note("append #%ld", (long)next - 1); ZPL_JOIN2(F, append)(&r, v); push(v); break; } \
            case 3: { T *a; zpl_array_init(a, zpl_heap_allocator()); size_t n = g.size((size_t)cap + 5); g.note("append_array of %zu", n); for (size_t i = 0; i < n; i++) { T v = mk<T>(next++); zpl_array_append(a, v); push(v); } ZPL_JOIN2(F, append_array)(&r, a); zpl_array_free(a); break; } \
            case 4: case 5: case 6: { T *p = ZPL_JOIN2(F, get)(&r); g.note("get"); if (m.empty()) REQUIRE(!p, "get from an empty ring returned an element"); else { REQUIRE(p, "get returned nothing though %zu elements are queued", m.size()); REQUIRE(eq(*p, m.front()), "get returned %s, the oldest element is %s", esc(p, sizeof(T)).c_str(), esc(&m.front(), sizeof(T)).c_str()); m.pop_front(); through++; } break; } \
            default: { size_t n = 1 + g.u((u64)cap + 4); g.note("get_array of at most %zu (%zu queued)", n, m.size()); T *a = ZPL_JOIN2(F, get_array)(&r, n, zpl_heap_allocator()); size_t want = std::min(n, m.size()); \
                REQUIRE((size_t)zpl_array_count(a) == want, "get_array(%zu) of a ring with %zu elements returned %ld elements", n, m.size(), (long)zpl_array_count(a)); \
                for (size_t i = 0; i < want; i++) { REQUIRE(eq(a[i], m.front()), "element %zu returned by get_array is wrong", i); m.pop_front(); through++; } zpl_array_free(a); break; } \
        } \
        REQUIRE(!!ZPL_JOIN2(F, empty)(&r) == m.empty(), "empty() = %d with %zu elements", (int)ZPL_JOIN2(F, empty)(&r), m.size()); \
        REQUIRE(!!ZPL_JOIN2(F, full)(&r) == ((zpl_isize)m.size() == cap), "full() = %d with %zu of %ld elements", (int)ZPL_JOIN2(F, full)(&r), m.size(), (long)cap); \
    } \
    while (!m.empty()) { T *p = ZPL_JOIN2(F, get)(&r); REQUIRE(p && eq(*p, m.front()), "draining: wrong element"); m.pop_front(); } \
    REQUIRE(ZPL_JOIN2(F, get)(&r) == 0, "the drained ring still delivers"); if (over && through > cap) g.nontrivial(); ZPL_JOIN2(F, free)(&r); }
RING_HISTORY(ring_u8, u8, ra_u8, ra_) RING_HISTORY(ring_u32, u32, rb_u32, rb_) RING_HISTORY(ring_s12, s12, rc_s12, rc_)
PROPERTY(ring, 700000, 14000000, "the ring overflowed at least once and more elements passed through than it has places") {
    switch (g.u(3)) { case 0: ring_u8(g); break; case 1: ring_u32(g); break; default: ring_s12(g); }
}
