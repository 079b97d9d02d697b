// A01: arenas
#include "zh.hpp"
struct Blk { unsigned char *p; std::string m; };
struct Ar { zpl_arena a; Ar *parent = 0; unsigned char *lo, *hi; std::vector<Blk> live; std::vector<std::pair<zpl_arena_snapshot, size_t>> snaps; std::vector<zpl_isize> rem; };
static void verify(std::vector<Ar *> &as, const char *when) {
    for (size_t k = 0; k < as.size(); k++) for (size_t i = 0; i < as[k]->live.size(); i++) { Blk &b = as[k]->live[i]; if (b.m.size() && memcmp(b.p, b.m.data(), b.m.size())) fail("arena %zu: block %zu (size %zu) changed after %s", k, i, b.m.size(), when); }
}
static void paint(Gen &g, Blk &b) { u64 s = g.draw(0xffff); for (auto &c : b.m) c = (char)splitmix(s); if (b.m.size()) memcpy(b.p, b.m.data(), b.m.size()); }
// checks a block an arena returned; sub: the block of a sub-arena may hold its blocks
static void take(Gen &g, std::vector<Ar *> &as, size_t k, void *vp, size_t n, size_t al, bool zero, const char *what) {
    Ar &A = *as[k]; unsigned char *p = (unsigned char *)vp;
    REQUIRE((uintptr_t)p % al == 0, "%s(size %zu, alignment %zu) returned misaligned %p", what, n, al, vp);
    REQUIRE(p >= A.lo && p + n <= A.hi, "%s(size %zu, alignment %zu) left the arena: offset %ld of %ld", what, n, al, (long)(p - A.lo), (long)(A.hi - A.lo));
    for (auto &b : A.live) REQUIRE(p + n <= b.p || b.p + b.m.size() <= p || !n || b.m.empty(), "%s overlaps a live block", what);
    if (zero) for (size_t i = 0; i < n; i++) REQUIRE(p[i] == 0, "%s: byte %zu not zeroed", what, i);
}
static size_t absurd(Gen &g) { switch (g.u(3)) { case 0: return (size_t)INT64_MAX - g.u(200); case 1: return (1ull << (40 + g.u(23))) + g.u(100); default: return (1ull << 62) + (g.u64any() >> 3); } }   // sizes no memory could hold
PROPERTY(history, 1500000, 15000000, "at least 4 blocks live at once or one nested scope with a block inside") {
    size_t cap = g.size(1500), mis = g.u(3) ? 0 : g.u(16);
    Exact ex(mis + cap, 0x5a); unsigned char *base = ex.p;
    zpl_allocator heap = zpl_heap_allocator(); bool from_alloc = g.u(4) == 0;
    Ar *root = new Ar; std::vector<Ar *> as{root};
    if (from_alloc) { zpl_arena_init_from_allocator(&root->a, heap, cap); root->lo = (unsigned char *)root->a.physical_start; } else { zpl_arena_init_from_memory(&root->a, base + mis, cap); root->lo = base + mis; }
    root->hi = root->lo + cap; g.note("arena of %zu bytes, base offset %zu, %s", cap, mis, from_alloc ? "from allocator" : "from memory");
    bool nested = false; size_t maxlive = 0; int nops = 1 + (int)g.size(50);
    for (int k = 0; k < nops; k++) {
        size_t ai = g.u(as.size()); Ar &A = *as[ai]; zpl_allocator al = zpl_arena_allocator(&A.a); size_t align = g.u(3) ? 16 : 1u << g.u(7), n = g.size(g.u(10) ? 80 : cap + 40);
        zpl_isize rem = zpl_arena_size_remaining(&A.a, (zpl_isize)align);
        if (g.u(8) == 0 && rem > 0) n = (size_t)rem + (g.u(3) ? 0 : g.u(3));
        if (g.u(40) == 39) n = absurd(g); bool fits = (zpl_isize)n <= rem;
        switch (g.u(12)) {
            case 0: case 1: case 2: case 3: case 4: {
                void *p = align == 16 && g.boolean() ? zpl_alloc(al, n) : zpl_alloc_align(al, n, align);
                g.note("arena %zu: alloc %zu align %zu (remaining %ld) -> %s", ai, n, align, (long)rem, p ? "block" : "nothing");
                REQUIRE(!!p == fits, "allocation of %zu bytes (alignment %zu) %s although %ld bytes remain", n, align, p ? "succeeded" : "failed", (long)rem);
                if (!p) { REQUIRE(zpl_arena_size_remaining(&A.a, align) == rem, "a refused allocation changed the arena"); break; }
                take(g, as, ai, p, n, align, true, "alloc"); Blk b{(unsigned char *)p, std::string(n, 0)}; paint(g, b); A.live.push_back(b); if (A.snaps.size()) nested = true; break; }
            case 5: if (!A.live.empty() && A.snaps.empty()) { Blk &b = A.live[g.u(A.live.size())]; if (b.m.empty() || !n) break;
                size_t o = b.m.size(); unsigned char *was = b.p; void *p = zpl_resize_align(al, b.p, o, n, 1); g.note("arena %zu: resize %zu -> %zu -> %s", ai, o, n, p ? "block" : "nothing");
                REQUIRE(p || n > o, "shrinking failed"); if (!p) { REQUIRE((zpl_isize)n > zpl_arena_size_remaining(&A.a, 1), "growing to %zu bytes failed although they fit", n); break; }
                std::string keep = b.m.substr(0, std::min(o, n)); REQUIRE(!memcmp(p, keep.data(), keep.size()), "resize lost the first %zu bytes", keep.size());
                Blk nb{(unsigned char *)p, keep}; nb.m.resize(n); A.live.erase(A.live.begin() + (&b - &A.live[0]));
                if (p != was) take(g, as, ai, p, n, 1, false, "resize"); paint(g, nb); A.live.push_back(nb); } break;
            case 6: if (!A.live.empty()) { Blk &b = A.live[g.u(A.live.size())]; g.note("arena %zu: free a block (no effect)", ai); zpl_free(al, b.p); } break;   // content stays until the arena is reset
            case 7: if (A.snaps.size() < 4) { g.note("arena %zu: open scope", ai); A.rem.push_back(zpl_arena_size_remaining(&A.a, 1)); A.snaps.push_back({zpl_arena_snapshot_begin(&A.a), A.live.size()}); } break;
            case 8: if (!A.snaps.empty()) { g.note("arena %zu: close scope", ai); zpl_arena_snapshot_end(A.snaps.back().first); A.live.resize(std::min(A.live.size(), A.snaps.back().second));
                REQUIRE(zpl_arena_size_remaining(&A.a, 1) == A.rem.back(), "closing the scope left %ld bytes, %ld before it was opened", (long)zpl_arena_size_remaining(&A.a, 1), (long)A.rem.back()); A.snaps.pop_back(); A.rem.pop_back(); } break;
            case 9: { bool hassub = false; for (auto *s : as) if (s->parent == &A) hassub = true; if (hassub || !A.snaps.empty()) break;
                g.note("arena %zu: free all", ai); zpl_free_all(al); A.live.clear(); size_t c = A.hi - A.lo; REQUIRE(zpl_arena_size_remaining(&A.a, 1) == (zpl_isize)c, "after free-all %ld of %zu bytes remain", (long)zpl_arena_size_remaining(&A.a, 1), c); } break;
            case 10: if (as.size() < 3 && A.snaps.empty()) { zpl_isize r16 = zpl_arena_size_remaining(&A.a, 16); g.note("arena %zu: sub-arena of %zu (remaining %ld)", ai, n, (long)r16);
                Ar *S = new Ar; zpl_arena_init_sub(&S->a, &A.a, n);
                if ((zpl_isize)n > r16) { for (int t = 0; t < 3 && n > 3; t++) REQUIRE(zpl_arena_size_remaining(&S->a, 1) < (t + 1) || zpl_alloc_align(zpl_arena_allocator(&S->a), t + 1, 1) == 0, "a sub-arena that got no memory hands out blocks"); delete S; break; }
                S->lo = (unsigned char *)S->a.physical_start; S->hi = S->lo + n; take(g, as, ai, S->lo, n, 16, false, "sub-arena"); S->parent = &A; as.push_back(S); } break;
            default: if (A.snaps.empty()) zpl_arena_check(&A.a); break;
        }
        // parent blocks never fall into a sub-arena's range
        for (auto *s : as) if (s->parent) for (auto &b : s->parent->live) REQUIRE(b.m.empty() || b.p + b.m.size() <= s->lo || b.p >= s->hi, "a block of the parent overlaps its sub-arena");
        verify(as, "that operation");
        size_t lv = 0; for (auto *s : as) lv += s->live.size(); maxlive = std::max(maxlive, lv);
    }
    if (maxlive >= 4 || nested) g.nontrivial();
    if (from_alloc) zpl_arena_free(&root->a);
    for (auto *s : as) delete s;
}
