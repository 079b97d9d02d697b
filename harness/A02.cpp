// A02: pools
#include "zh.hpp"
struct Blk { unsigned char *p; std::string m; };
PROPERTY(history, 800000, 12000000, "at least 3 blocks, all of them live at once, and a block served again after being freed") {
    zpl_isize num = 1 + (zpl_isize)g.size(60), align = g.u(3) ? 16 : (zpl_isize)1 << g.u(8), bs = 1 + (zpl_isize)g.size(g.u(8) ? 40 : 300);
    bool def = align == 16 && g.boolean();
    // backing: an arena over an exact-size heap block or the heap itself, so writes past the pool's memory are seen
    zpl_pool pool; g.note("pool of %ld blocks of %ld bytes, alignment %ld", (long)num, (long)bs, (long)align);
    if (def) zpl_pool_init(&pool, zpl_heap_allocator(), num, bs); else zpl_pool_init_align(&pool, zpl_heap_allocator(), num, bs, align);
    zpl_allocator a = zpl_pool_allocator(&pool); std::vector<Blk> live; REQUIRE(pool.total_size == 0 && pool.num_blocks == num, "a new pool counts %ld bytes in use", (long)pool.total_size); bool full = false, again = false, freed = false; int nops = 1 + (int)g.size(80);
    auto alloc = [&]() {
        unsigned char *p = (unsigned char *)zpl_alloc_align(a, bs, align); REQUIRE(p, "allocation %zu of %ld failed", live.size() + 1, (long)num);
        REQUIRE((uintptr_t)p % align == 0, "block at %p is not aligned to %ld", p, (long)align);
        for (auto &b : live) REQUIRE(p + bs <= b.p || b.p + bs <= p, "block handed out while (part of) it is live: %p and %p, size %ld", p, b.p, (long)bs);
        for (zpl_isize i = 0; i < bs; i++) REQUIRE(p[i] == 0, "byte %ld of a new block is not zero", (long)i);
        Blk b{p, std::string(bs, 0)}; u64 s = g.draw(0xffff); for (auto &c : b.m) c = (char)splitmix(s); memcpy(p, b.m.data(), bs); live.push_back(b);
        if (freed) again = true; if ((zpl_isize)live.size() == num) full = true;
    };
    auto verify = [&](const char *w) { for (auto &b : live) REQUIRE(!memcmp(b.p, b.m.data(), bs), "a live block changed after %s", w); REQUIRE(pool.total_size == (zpl_isize)live.size() * bs && pool.block_size == bs, "the pool counts %ld bytes in use with %zu live blocks of %ld, after %s", (long)pool.total_size, live.size(), (long)bs, w); };
    for (int k = 0; k < nops; k++) {
        switch (g.u(10)) {
            case 0: case 1: case 2: case 3: if ((zpl_isize)live.size() < num) { g.note("alloc"); alloc(); verify("alloc"); } break;
            case 4: g.note("alloc the rest"); while ((zpl_isize)live.size() < num) alloc(); verify("alloc"); break;
            case 5: case 6: case 7: if (!live.empty()) { size_t i = g.u(live.size()); g.note("free %zu", i); zpl_free(a, live[i].p); live.erase(live.begin() + i); freed = true; verify("free"); } break;
            case 8: if (g.u(3) == 0) { g.note("free all"); zpl_free_all(a); live.clear(); freed = true; verify("free all"); } break;
            default: g.note("free nothing"); zpl_free(a, 0); break;
        }
    }
    while ((zpl_isize)live.size() < num) alloc();              // the promised number is always available
    verify("the final allocations"); if (num >= 3 && full && again) g.nontrivial();
    zpl_pool_free(&pool);
}
