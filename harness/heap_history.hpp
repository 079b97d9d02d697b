// history of general-purpose allocations against a map of live blocks (shared by M02 and M03)
#pragma once
#include "zh.hpp"
struct HB { unsigned char *p; std::string m; size_t align, granted; };
static void heap_history(Gen &g, bool stats) {
    zpl_allocator a = zpl_heap_allocator();
    std::vector<HB> live; int nops = 1 + (int)g.size(60); int resized = 0;
    if (stats) { zpl_heap_stats_init(); REQUIRE(zpl_heap_stats_used_memory() == 0 && zpl_heap_stats_alloc_count() == 0, "statistics do not start at zero"); }
    auto paint = [&](HB &b) { u64 s = g.draw(0xffff); for (size_t i = 0; i < b.m.size(); i++) b.m[i] = (char)(splitmix(s)); if (!b.m.empty()) memcpy(b.p, b.m.data(), b.m.size()); };
    auto verify = [&](const char *when) {
        for (size_t i = 0; i < live.size(); i++) if (live[i].m.size() && memcmp(live[i].p, live[i].m.data(), live[i].m.size())) fail("block %zu (size %zu) changed after %s", i, live[i].m.size(), when);
        if (stats) {
            size_t lo = 0, hi = 0; for (auto &b : live) { lo += b.m.size(); hi += b.granted; }
            zpl_isize u = zpl_heap_stats_used_memory(), c = zpl_heap_stats_alloc_count();
            REQUIRE(c == (zpl_isize)live.size(), "statistics count %ld, live blocks %zu, after %s", (long)c, live.size(), when);
            REQUIRE(u >= (zpl_isize)lo && u <= (zpl_isize)hi, "statistics report %ld bytes, live blocks hold %zu (granted %zu), after %s", (long)u, lo, hi, when);
        }
    };
    auto fresh = [&](void *p, size_t n, size_t al, bool zero, const char *what) {
        REQUIRE(p, "%s of %zu bytes gave nothing", what, n);
        REQUIRE((uintptr_t)p % al == 0, "%s(size %zu, alignment %zu) returned %p", what, n, al, p);
        for (auto &b : live) REQUIRE((unsigned char *)p + n <= b.p || b.p + b.m.size() <= (unsigned char *)p || !n || b.m.empty(), "%s overlaps a live block", what);
        if (zero) for (size_t i = 0; i < n; i++) REQUIRE(((unsigned char *)p)[i] == 0, "%s: byte %zu of %zu not zeroed", what, i, n);
    };
    for (int k = 0; k < nops; k++) {
        size_t n = g.size(g.u(20) ? 300 : 6000); size_t al = 1u << g.u(9); 
        switch (g.u(11)) {
            case 0: case 1: { HB b{(unsigned char *)zpl_alloc(a, n), std::string(n, 0), 16, n}; g.note("alloc %zu", n); fresh(b.p, n, 16, true, "alloc"); paint(b); live.push_back(b); break; }
            case 2: case 3: { HB b{(unsigned char *)zpl_alloc_align(a, n, al), std::string(n, 0), al, n}; g.note("alloc_align %zu, %zu", n, al); fresh(b.p, n, al, true, "alloc_align"); paint(b); live.push_back(b); break; }
            case 4: { std::string s = g.bytes(std::min<size_t>(n, 64)); Exact e(s); HB b{(unsigned char *)zpl_alloc_copy_align(a, e.p, s.size(), al), s, al, s.size()}; g.note("alloc_copy_align %zu, %zu", s.size(), al); fresh(b.p, s.size(), al, false, "alloc_copy_align"); live.push_back(b); break; }
            case 5: { std::string s = g.bytes(std::min<size_t>(n, 64)); Exact e(s); HB b{(unsigned char *)zpl_alloc_copy(a, e.p, s.size()), s, 16, s.size()}; g.note("alloc_copy %zu", s.size()); fresh(b.p, s.size(), 16, false, "alloc_copy"); live.push_back(b); break; }
            case 6: { std::string s = g.str(40, "abc xyz"); bool whole = g.boolean(); size_t l = whole ? s.size() : g.u(s.size() + 1); 
                char *p; g.note("alloc_str %zu of %zu", l, s.size());
                if (whole) { Exact e(s, true); p = zpl_alloc_str(a, e.c()); } else { Exact e(s); p = zpl_alloc_str_len(a, e.c(), l); }
                HB b{(unsigned char *)p, s.substr(0, l) + std::string(1, 0), 16, l + 1}; fresh(p, l + 1, 16, false, "alloc_str"); live.push_back(b); break; }
            case 7: case 8: if (!live.empty()) {
                HB &b = live[g.u(live.size())]; size_t o = b.m.size(); bool def = b.align == 16 && g.boolean(); if (stats && n < b.granted) n = b.granted + n % 50;
                g.note("resize %zu -> %zu (align %zu)", o, n, b.align);
                if (n == 0) n = 1;
                unsigned char *q = (unsigned char *)(def ? zpl_resize(a, b.p, (zpl_isize)o, (zpl_isize)n) : g.boolean() ? zpl_resize_align(a, b.p, (zpl_isize)o, (zpl_isize)n, (zpl_isize)b.align) : zpl_default_resize_align(a, b.p, (zpl_isize)o, (zpl_isize)n, (zpl_isize)b.align));
                b.p = q; b.m.resize(std::min(o, n)); std::string keep = b.m;          // kept prefix
                REQUIRE(q && (uintptr_t)q % b.align == 0, "resize(%zu -> %zu, alignment %zu) returned %p", o, n, b.align, q);
                REQUIRE(keep.empty() || !memcmp(q, keep.data(), keep.size()), "resize %zu -> %zu lost the first %zu bytes", o, n, keep.size());
                b.m.resize(n); b.granted = std::max(o, n); 
                for (auto &c : live) if (&c != &b) REQUIRE(q + n <= c.p || c.p + c.m.size() <= q || c.m.empty(), "resized block overlaps a live block");
                paint(b); resized++; } break;
            case 9: if (!live.empty()) { size_t i = g.u(live.size()); g.note("free %zu", live[i].m.size()); if (g.u(4) || live[i].m.empty()) zpl_free(a, live[i].p); else REQUIRE(zpl_resize(a, live[i].p, live[i].m.size(), 0) == 0, "resize to nothing returned a block"); live.erase(live.begin() + i); } break;
            case 10: if (g.boolean()) { HB b{(unsigned char *)zpl_resize(a, 0, 0, n), std::string(n, 0), 16, n}; g.note("resize of nothing to %zu", n); fresh(b.p, n, 16, true, "resize(NULL)"); paint(b); live.push_back(b); } else { zpl_free(a, 0); g.note("free nothing"); } break;
        }
        verify("that operation");
    }
    if (nops >= 6 && live.size() >= 2) g.nontrivial();
    while (!live.empty()) { size_t i = g.u(live.size()); zpl_free(a, live[i].p); live.erase(live.begin() + i); if (stats) verify("free"); }
    if (stats) { verify("the end"); zpl_heap_stats_check(); }
}
