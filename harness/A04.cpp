// A04: stack allocator
#include "zh.hpp"
struct Blk { unsigned char *p; std::string m; size_t n, al; };
PROPERTY(lifo, 800000, 10000000, "at least 4 blocks live at once") {
    size_t cap = g.size(1500), mis = g.u(4) ? 0 : g.u(16); bool heap = g.u(3) == 0; Exact ex(mis + cap, 0x5a); unsigned char *lo;
    zpl_stack_memory s; if (heap) { zpl_stack_memory_init(&s, zpl_heap_allocator(), cap); lo = (unsigned char *)s.physical_start; } else { lo = ex.p + mis; zpl_stack_memory_init_from_memory(&s, lo, cap); }
    unsigned char *hi = lo + cap; zpl_allocator a = zpl_stack_allocator(&s); std::vector<Blk> live; int nops = 1 + (int)g.size(60); size_t top = 0, maxlive = 0; std::vector<size_t> tops; Blk last{0, "", 0, 0}; bool have = false;
    g.note("stack of %zu bytes, %s", cap, heap ? "from the heap" : "over caller memory");
    for (int k = 0; k < nops; k++) {
        size_t n = g.size(g.u(8) ? 60 : cap), al = g.u(3) ? 16 : 1u << g.u(7);
        if (have && g.boolean()) { n = last.n; al = last.al; }
        switch (g.u(8)) {
            case 0: case 1: case 2: case 3: {
                if (top + n + al + 8 > cap) break;                        // certainly fits otherwise: at most 8 bytes of bookkeeping and the padding
                unsigned char *p = (unsigned char *)zpl_alloc_align(a, n, al); g.note("alloc %zu align %zu -> %ld", n, al, (long)(p - lo));
                REQUIRE(p && (uintptr_t)p % al == 0, "block %p is not aligned to %zu", p, al);
                REQUIRE(p >= lo && p + n <= hi, "block at offset %ld of size %zu leaves the buffer of %zu bytes", (long)(p - lo), n, cap);
                for (auto &b : live) REQUIRE(!n || !b.n || p + n <= b.p || b.p + b.n <= p, "block overlaps a live block");
                if (have && n == last.n && al == last.al) REQUIRE(p == last.p, "after a last-in-first-out free the same request gives offset %ld instead of %ld", (long)(p - lo), (long)(last.p - lo));
                if (n) REQUIRE(zpl_stack_memory_is_in_use(&s, p), "a live block is reported as not in use");
                Blk b{p, std::string(n, 0), n, al}; u64 x = g.draw(0xffff); for (auto &c : b.m) c = (char)splitmix(x); if (n) memcpy(p, b.m.data(), n); live.push_back(b); tops.push_back(top); top = (size_t)(p - lo) + n; have = false; break; }
            case 4: case 5: case 6: if (!live.empty()) { g.note("free the last block"); last = live.back(); have = true; zpl_free(a, live.back().p); live.pop_back(); top = tops.back(); tops.pop_back(); } break;
            default: if (g.u(4) == 0) { g.note("free all"); zpl_free_all(a); live.clear(); tops.clear(); top = 0; have = false; } else zpl_free(a, 0); break;
        }
        for (auto &b : live) if (b.n && memcmp(b.p, b.m.data(), b.n)) fail("live block at offset %ld (size %zu) changed", (long)(b.p - lo), b.n);
        maxlive = std::max(maxlive, live.size());
        if (live.empty() && top == 0) REQUIRE(!zpl_stack_memory_is_in_use(&s, lo + cap / 2), "nothing is live but memory is reported in use");
    }
    if (maxlive >= 4) g.nontrivial();
    zpl_stack_memory_free(&s);
}
// a stack with a backing allocator grows: the block returned is whole, aligned and inside memory the stack owns, contents so far are kept
static size_t absurd(Gen &g) { switch (g.u(3)) { case 0: return (size_t)INT64_MAX - g.u(200); case 1: return (1ull << (40 + g.u(23))) + g.u(100); default: return (1ull << 62) + (g.u64any() >> 3); } }   // sizes no memory could hold
PROPERTY(grow, 200000, 3000000, "the stack grew at least twice") {
    size_t cap = g.size(64); zpl_stack_memory s; zpl_stack_memory_init(&s, zpl_heap_allocator(), cap); zpl_allocator a = zpl_stack_allocator(&s); int grew = 0; size_t sum = 0; g.note("growing stack of %zu bytes", cap);
    struct R { size_t off; std::string m; }; std::vector<R> kept; unsigned char *base = (unsigned char *)s.physical_start;
    for (int k = (int)g.u(12); k >= 0; k--) {
        size_t n = g.size(100), al = g.u(3) ? 16 : 1u << g.u(7); unsigned char *p = (unsigned char *)zpl_alloc_align(a, n, al); sum += n + 8; g.note("alloc %zu align %zu", n, al);
        REQUIRE(p && (uintptr_t)p % al == 0, "block %p is not aligned to %zu", p, al);
        if ((unsigned char *)s.physical_start != base) { grew++; base = (unsigned char *)s.physical_start; }
        std::string m = g.bytes(n); if (n) memcpy(p, m.data(), n);           // ASan: the block lies in memory the stack owns
        for (auto &r : kept) REQUIRE(r.m.empty() || !memcmp(base + r.off, r.m.data(), r.m.size()), "contents lost when the stack grew");
        kept.push_back({(size_t)(p - base), m});
        if (g.u(20) == 19) { size_t h = absurd(g); g.note("alloc %zu", h); REQUIRE(!zpl_alloc_align(a, (zpl_isize)h, 16), "%zu bytes were served", h); REQUIRE(s.physical_start == base, "a refused request moved the stack"); }
        if (g.u(4) == 0) { zpl_free(a, p); unsigned char *q = (unsigned char *)zpl_alloc_align(a, n, al); REQUIRE(q == p, "freeing the last block did not restore the stack"); if (n) memcpy(q, m.data(), n); }
    }
    if (grew >= 2) g.nontrivial();
    zpl_stack_memory_free(&s); REQUIRE(s.physical_start == 0, "released stack still refers to its memory");
}
