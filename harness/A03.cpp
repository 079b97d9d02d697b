// A03: scratch (ring) allocator
#include "zh.hpp"
struct Blk { unsigned char *p; std::string m; size_t need; };
static size_t absurd(Gen &g) { switch (g.u(3)) { case 0: return (size_t)INT64_MAX - g.u(200); case 1: return (1ull << (40 + g.u(23))) + g.u(100); default: return (1ull << 62) + (g.u64any() >> 3); } }   // sizes no memory could hold
static void body(Gen &g, bool fifo) {
    size_t cap = 16 + g.size(1200), mis = g.u(4) ? 0 : g.u(16); Exact ex(mis + cap, 0x5a); unsigned char *lo = ex.p + mis, *hi = lo + cap;
    zpl_scratch_memory s; zpl_scratch_memory_init(&s, lo, cap); zpl_allocator a = zpl_scratch_allocator(&s);
    g.note("scratch of %zu bytes at offset %zu%s", cap, mis, fifo ? ", first-in-first-out use" : "");
    std::vector<Blk> live; size_t first = 0, firsta = 16, served = 0, bytes = 0; int nops = 2 + (int)g.size(100); size_t maxlive = 0;
    auto check = [&](unsigned char *p, size_t n, size_t al, const Blk *skip) {
        REQUIRE((uintptr_t)p % al == 0, "block %p is not aligned to %zu", p, al);
        REQUIRE(p >= lo && p + n <= hi, "block at offset %ld of size %zu leaves the buffer of %zu bytes", (long)(p - lo), n, cap);
        for (auto &b : live) if (&b != skip) REQUIRE(!n || b.m.empty() || p + n <= b.p || b.p + b.m.size() <= p, "block [%ld,%ld) overlaps live block [%ld,%ld)", (long)(p - lo), (long)(p - lo + n), (long)(b.p - lo), (long)(b.p - lo + b.m.size()));
        REQUIRE(zpl_scratch_memory_is_in_use(&s, p), "a live block is reported as not in use");
    };
    auto paint = [&](Blk &b) { u64 x = g.draw(0xffff); for (auto &c : b.m) c = (char)splitmix(x); if (b.m.size()) memcpy(b.p, b.m.data(), b.m.size()); };
    auto verify = [&](const char *w) { for (auto &b : live) if (b.m.size() && memcmp(b.p, b.m.data(), b.m.size())) fail("live block at offset %ld (size %zu) changed after %s", (long)(b.p - lo), b.m.size(), w); };
    for (int k = 0; k < nops; k++) {
        size_t n = g.size(g.u(6) ? std::max<size_t>(cap / 6, 8) : cap + 20), al = g.u(3) ? 16 : 4u << g.u(5);
        switch (g.u(fifo ? 8 : 10)) {
            case 0: case 1: case 2: case 3: { if (g.u(40) == 39) { size_t h = absurd(g); g.note("alloc %zu", h); REQUIRE(!zpl_alloc_align(a, (zpl_isize)h, (zpl_isize)al), "%zu bytes were served from a buffer of %zu", h, cap); break; }
                unsigned char *p = (unsigned char *)zpl_alloc_align(a, n, al); size_t need = n + al + 24, tot = 0; for (auto &b : live) tot += b.need;
                g.note("alloc %zu align %zu -> %ld", n, al, p ? (long)(p - lo) : -1L);
                if (!p && fifo) REQUIRE(2 * tot + 2 * need >= cap, "allocation of %zu bytes refused with %zu bytes live of %zu in first-in-first-out use", n, tot, cap);
                if (!p && live.empty()) REQUIRE(n + al + 24 > cap, "allocation of %zu bytes (alignment %zu) refused by an empty buffer of %zu bytes", n, al, cap);
                if (!p) break; check(p, n, al, 0); for (size_t i = 0; i < n; i++) REQUIRE(p[i] == 0, "byte %zu of a new block is not zero", i);
                Blk b{p, std::string(n, 0), need}; paint(b); live.push_back(b); served++; bytes += n; if (!first && live.size() == 1) { first = n; firsta = al; } break; }
            case 4: case 5: case 6: if (!live.empty()) { size_t i = fifo ? 0 : g.u(live.size()); g.note("free the block at %ld", (long)(live[i].p - lo)); zpl_free(a, live[i].p); live.erase(live.begin() + i); } break;
            case 7: if (fifo || g.u(4)) { zpl_free(a, 0); } else { g.note("free all"); zpl_free_all(a); live.clear(); } break;
            default: if (!live.empty()) { size_t i = g.u(live.size()); Blk &b = live[i]; if (b.m.empty() || !n) break; size_t o = b.m.size(); unsigned char *was = b.p, *p = (unsigned char *)zpl_resize_align(a, b.p, o, n, 4);
                g.note("resize the block at %ld: %zu -> %zu -> %ld", (long)(was - lo), o, n, p ? (long)(p - lo) : -1L); if (!p) { REQUIRE(n > o, "shrinking failed"); break; }
                REQUIRE(!memcmp(p, b.m.data(), std::min(o, n)), "resize lost the first bytes"); check(p, n, 4, p == was ? &b : 0); b.p = p; b.m.resize(n); b.need += n + 32; paint(b); } break;
        }
        verify("that operation"); maxlive = std::max(maxlive, live.size());
    }
    if (maxlive >= 3 && bytes > cap) g.nontrivial();          // the ring wrapped with several blocks live
    while (!live.empty()) { size_t i = fifo ? 0 : g.u(live.size()); zpl_free(a, live[i].p); live.erase(live.begin() + i); verify("free"); }
    REQUIRE(!zpl_scratch_memory_is_in_use(&s, lo) && !zpl_scratch_memory_is_in_use(&s, lo + cap / 2), "everything was freed but memory is reported in use");
    if (first) { g.note("everything freed; alloc %zu align %zu", first, firsta); REQUIRE(zpl_alloc_align(a, first, firsta), "after everything was freed the buffer cannot serve what it served when new"); }
}
PROPERTY(any_order, 1000000, 12000000, "more bytes served than the buffer holds, with three blocks live at some point") { body(g, false); }
PROPERTY(fifo, 400000, 5000000, "more bytes served than the buffer holds, with three blocks live at some point") { body(g, true); }
