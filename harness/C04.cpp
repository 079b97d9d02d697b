// C04: hash tables
#include "zh.hpp"
typedef struct V3 { u64 a; unsigned char b; } v3;
ZPL_TABLE(static, ti, ti_, unsigned) ZPL_TABLE(static, tv, tv_, v3)
static std::vector<std::pair<u64, u64>> seen;
static u64 val_of(unsigned v) { return v; } static u64 val_of(const v3 &v) { return v.b == (unsigned char)(v.a * 31) ? v.a : ~0ull; }
static void set_val(unsigned &t, u64 v) { t = (unsigned)v; } static void set_val(v3 &t, u64 v) { memset(&t, 0, sizeof t); t.a = v; t.b = (unsigned char)(v * 31); }
#define TABLE_HISTORY(NAME, T, F, V) static void NAME(Gen &g) { \
    T h; ZPL_JOIN2(F, init)(&h, zpl_heap_allocator()); std::map<u64, u64> m; u64 next = 1; size_t maxn = 0; bool removed_chain = false, grew = false; \
    int kind = (int)g.u(5); u64 span = 1 + g.size(60), stride = kind == 0 ? 1 : kind == 1 ? 8 : kind == 2 ? 8 * 24 * 56 : kind == 3 ? 1ull << 58 : 0; std::vector<u64> used; \
    auto key = [&]() -> u64 { if (stride) return g.u(span) * stride; if (!used.empty() && g.u(3)) return g.pick(used); u64 k = g.u64any(); used.push_back(k); return k; }; \
    auto check_key = [&](u64 k, const char *w) { V *p = ZPL_JOIN2(F, get)(&h, k); auto it = m.find(k); zpl_isize s = ZPL_JOIN2(F, slot)(&h, k); \
        if (it == m.end()) { REQUIRE(!p, "get(%llu) finds an absent key after %s", (unsigned long long)k, w); REQUIRE(s < 0, "slot(%llu) = %ld for an absent key after %s", (unsigned long long)k, (long)s, w); } \
        else { REQUIRE(p, "get(%llu) finds nothing after %s, %zu keys present", (unsigned long long)k, w, m.size()); REQUIRE(val_of(*p) == it->second, "get(%llu) gives %llu, expected %llu, after %s", (unsigned long long)k, (unsigned long long)val_of(*p), (unsigned long long)it->second, w); \
            REQUIRE(s >= 0 && s < zpl_array_count(h.entries) && h.entries[s].key == k && val_of(h.entries[s].value) == it->second, "slot(%llu) = %ld is not the key's own entry, after %s", (unsigned long long)k, (long)s, w); } }; \
    auto check_all = [&](const char *w) { for (auto &kv : m) check_key(kv.first, w); seen.clear(); ZPL_JOIN2(F, map)(&h, [](zpl_u64 k, V v) { seen.push_back({k, val_of(v)}); }); \
        std::map<u64, u64> s2(seen.begin(), seen.end()); REQUIRE(seen.size() == m.size() && s2 == m, "iteration visits %zu entries (%zu distinct keys), expected %zu, after %s", seen.size(), s2.size(), m.size(), w); \
        auto s1 = seen; seen.clear(); ZPL_JOIN2(F, map_mut)(&h, [](zpl_u64 k, V *v) { seen.push_back({k, val_of(*v)}); }); REQUIRE(seen == s1, "map and map_mut visit different entries"); }; \
    int nops = 1 + (int)g.size(120); \
    for (int k = 0; k < nops; k++) { const char *w = ""; u64 kk = 0; bool point = false; \
        switch (g.u(14)) { \
            case 0: case 1: case 2: case 3: case 4: case 5: { w = "set"; kk = key(); point = true; V v; set_val(v, next); g.note("set %llu := %llu", (unsigned long long)kk, (unsigned long long)next); ZPL_JOIN2(F, set)(&h, kk, v); m[kk] = next++; break; } \
            case 6: case 7: case 8: { w = "remove"; kk = key(); point = true; g.note("remove %llu", (unsigned long long)kk); auto it = m.find(kk); if (it != m.end() && zpl_array_count(h.hashes) > 0) { u64 b = kk % (u64)zpl_array_count(h.hashes); int mates = 0; for (auto &o : m) mates += o.first % (u64)zpl_array_count(h.hashes) == b; removed_chain |= mates >= 2; m.erase(it); } else if (it != m.end()) m.erase(it); ZPL_JOIN2(F, remove)(&h, kk); break; } \
            case 9: { w = "remove_entry and rehash_fast"; if (m.empty()) break; kk = std::next(m.begin(), g.u(m.size()))->first; zpl_isize s = ZPL_JOIN2(F, slot)(&h, kk); REQUIRE(s >= 0, "no slot for a present key"); g.note("remove_entry %ld (key %llu)", (long)s, (unsigned long long)kk); ZPL_JOIN2(F, remove_entry)(&h, s); ZPL_JOIN2(F, rehash_fast)(&h); m.erase(kk); point = true; break; } \
            case 10: w = "grow"; if (g.u(2)) break; g.note("grow"); ZPL_JOIN2(F, grow)(&h); grew = true; break; \
            case 11: { w = "rehash"; zpl_isize n = (zpl_isize)g.size(80); g.note("rehash %ld", (long)n); ZPL_JOIN2(F, rehash)(&h, n); grew = true; break; } \
            case 12: w = "clear"; if (g.u(6)) break; g.note("clear"); ZPL_JOIN2(F, clear)(&h); m.clear(); break; \
            default: { w = "map_mut"; if (g.u(3)) break; g.note("map_mut doubling"); ZPL_JOIN2(F, map_mut)(&h, [](zpl_u64, V *v) { set_val(*v, (val_of(*v) * 2) & 0xffffff); }); for (auto &kv : m) kv.second = (kv.second * 2) & 0xffffff; break; } \
        } \
        if (point) check_key(kk, w); if (!point || g.u(4) == 0) check_all(w); check_key(key(), w); maxn = std::max(maxn, m.size()); } \
    check_all("the history"); if (maxn >= 9 && removed_chain && grew) g.nontrivial(); ZPL_JOIN2(F, destroy)(&h); }
TABLE_HISTORY(hist_u32, ti, ti_, unsigned) TABLE_HISTORY(hist_v3, tv, tv_, v3)
PROPERTY(history, 250000, 5000000, "at least 9 keys present at once, a key removed from a chain it shared, and an explicit grow or rehash") {
    if (g.boolean()) hist_u32(g); else hist_v3(g);
}
