// O01: sorting permutes into order; searching finds; shuffling permutes
// @fuzz-quick 5
// @fuzz-thorough 180
#include "zh.hpp"
static size_t cmp_size; static int (*cmp_fn)(const void *, const void *);
static const char *order_name[] = {"random", "few values", "ascending", "descending", "organ pipe", "all equal", "nearly sorted", "sawtooth", "blocks"};
static std::vector<u64> keys(Gen &g, size_t maxn, int &kind) {               // sequences of ranks in characteristic orders
    size_t n = g.u(3) ? g.size(24) : g.size(maxn); kind = (int)g.u(9); std::vector<u64> v(n); u64 seed = g.u(~0ull), few = 1 + g.u(5);
    for (size_t i = 0; i < n; i++) switch (kind) { case 0: v[i] = n < 32 ? g.u(64) : splitmix(seed) % (4 * n); break; case 1: v[i] = n < 32 ? g.u(few + 1) : splitmix(seed) % (few + 1); break; case 2: v[i] = i; break; case 3: v[i] = n - i; break; case 4: v[i] = std::min(i, n - i); break; case 5: v[i] = 7; break; case 6: v[i] = i; break; case 7: v[i] = i % (few + 2); break; default: v[i] = (i / few) ^ few; }
    if (kind == 6 && n) for (size_t k = 0; k < 1 + few; k++) std::swap(v[splitmix(seed) % n], v[splitmix(seed) % n]);
    return v;
}
static int cmp_bytes(const void *a, const void *b) { return memcmp(a, b, cmp_size); }
static int cmp_first(const void *a, const void *b) { return (int)*(const unsigned char *)a / 16 - (int)*(const unsigned char *)b / 16; }  // ties between different elements
static int cmp_down(const void *a, const void *b) { return memcmp(b, a, cmp_size); }
static std::vector<std::string> split(const char *p, size_t n, size_t size) { std::vector<std::string> v; for (size_t i = 0; i < n; i++) v.push_back(std::string(p + i * size, size)); return v; }
PROPERTY(sort, 120000, 3000000, "at least 9 elements (beyond the insertion sort) in an order that is not already sorted") {
    int kind; auto k = keys(g, 2000, kind); size_t size = 1 + g.u(40), n = k.size(); cmp_size = size; int c = (int)g.u(3); cmp_fn = c == 0 ? cmp_bytes : c == 1 ? cmp_first : cmp_down;
    std::string raw; u64 seed = g.u(1000); for (u64 x : k) { std::string e(size, 0); for (size_t i = 0; i < size; i++) { size_t from_end = size - 1 - i; e[i] = size <= 8 ? (char)(x >> (8 * from_end)) : i < 8 ? (char)(x >> (8 * (7 - i))) : (char)(splitmix(seed) % 3); } if (size < 2) e[0] = (char)x; raw += e; }
    g.note("%zu elements of %zu bytes, %s, ordering %d", n, size, order_name[kind], c); auto before = split(raw.data(), n, size); Exact e(raw); bool was = true; for (size_t i = 0; i + 1 < n; i++) was &= cmp_fn(before[i].data(), before[i + 1].data()) <= 0;
    zpl_sort(e.p, (zpl_isize)n, (zpl_isize)size, cmp_fn); auto after = split((char *)e.p, n, size); for (size_t i = 0; i + 1 < n; i++) REQUIRE(cmp_fn(after[i].data(), after[i + 1].data()) <= 0, "elements %zu and %zu of %zu are out of order: %s, %s", i, i + 1, n, esc(after[i]).c_str(), esc(after[i + 1]).c_str());
    auto s = after; std::sort(before.begin(), before.end()); std::sort(s.begin(), s.end()); REQUIRE(s == before, "the sorted array has other elements than the original"); g.label(order_name[kind]); if (n >= 9 && !was) g.nontrivial();
}
template <class T> static void typed(Gen &g, zpl_compare_proc *(*make)(zpl_isize), T (*value)(Gen &)) {
    struct Rec { unsigned char pad[3]; T v; u64 tag; }; size_t n = g.size(60); std::vector<Rec> v(n); memset((void *)v.data(), 0, n * sizeof(Rec)); for (size_t i = 0; i < n; i++) { v[i].v = value(g); v[i].tag = i; } std::vector<T> vals; for (auto &r : v) vals.push_back(r.v);
    Exact e(std::string((char *)v.data(), n * sizeof(Rec))); Rec *r = (Rec *)e.p; zpl_isize off = (zpl_isize)((char *)&v.data()->v - (char *)v.data()); zpl_sort_array(r, (zpl_isize)n, make(off)); std::stable_sort(vals.begin(), vals.end()); std::vector<bool> seen(n);
    for (size_t i = 0; i < n; i++) { REQUIRE(r[i].v == vals[i], "element %zu is out of order", i); REQUIRE(r[i].tag < n && !seen[r[i].tag] && v[r[i].tag].v == r[i].v, "element %zu is not one of the originals", i); seen[r[i].tag] = true; }
    // search among the sorted records
    for (int k = 0; k < 4; k++) { Rec key; memset((void *)&key, 0, sizeof key); key.v = n && g.boolean() ? r[g.u(n)].v : value(g); zpl_isize at = zpl_binary_search_array(r, (zpl_isize)n, &key, make(off)); bool in = std::binary_search(vals.begin(), vals.end(), key.v); if (in) REQUIRE(at >= 0 && at < (zpl_isize)n && r[at].v == key.v, "a present key is reported at %ld", (long)at); else REQUIRE(at == -1, "an absent key is reported at %ld", (long)at); }
    if (n >= 9) g.nontrivial();
}
template <class T> static T ints(Gen &g) { return g.boolean() ? (T)g.i64any() : (T)g.u(8); }
template <class T> static T reals(Gen &g) { switch (g.u(4)) { case 0: return (T)INFINITY * (g.boolean() ? 1 : -1); case 1: return (T)g.range(-8, 8) / 4; default: return (T)((double)g.i64any() * 1e-6); } }
PROPERTY(comparators, 100000, 2500000, "at least 9 records") {
    int t = (int)g.u(8); g.note("type %d", t); switch (t) { case 0: typed<zpl_u8>(g, zpl_u8_cmp, ints<zpl_u8>); break; case 1: typed<zpl_i16>(g, zpl_i16_cmp, ints<zpl_i16>); break; case 2: typed<zpl_i32>(g, zpl_i32_cmp, ints<zpl_i32>); break; case 3: typed<zpl_i64>(g, zpl_i64_cmp, ints<zpl_i64>); break; case 4: typed<zpl_isize>(g, zpl_isize_cmp, ints<zpl_isize>); break; case 5: typed<zpl_f32>(g, zpl_f32_cmp, reals<zpl_f32>); break; case 6: typed<zpl_f64>(g, zpl_f64_cmp, reals<zpl_f64>); break;
        default: { size_t n = g.size(40); std::vector<std::string> s; for (size_t i = 0; i < n; i++) s.push_back(g.str(6, "ab\x01\x7f")); struct R { u64 pad; const char *p; }; std::vector<R> r; for (auto &x : s) r.push_back({0, x.c_str()}); Exact e(std::string((char *)r.data(), n * sizeof(R))); R *q = (R *)e.p; zpl_sort_array(q, (zpl_isize)n, zpl_str_cmp(8)); auto want = s; std::sort(want.begin(), want.end()); for (size_t i = 0; i < n; i++) REQUIRE(want[i] == q[i].p, "text %zu is %s, expected %s", i, esc(q[i].p).c_str(), esc(want[i]).c_str()); if (n >= 9) g.nontrivial(); } }
}
template <class T> static void radix(Gen &g, void (*sorter)(T *, T *, zpl_isize)) {
    int kind; auto k = keys(g, 1000, kind); size_t n = k.size(); std::vector<T> v(n); int how = (int)g.u(3); u64 seed = g.u(1000); for (size_t i = 0; i < n; i++) v[i] = how == 0 ? (T)k[i] : how == 1 ? (T)(k[i] << (8 * (sizeof(T) - 1))) : (T)(k[i] * 0x9E3779B97F4A7C15ull + splitmix(seed) % 2); g.note("%zu items of %zu bytes, %s", n, sizeof(T), order_name[kind]);
    Exact a(std::string((char *)v.data(), n * sizeof(T))), t(n * sizeof(T), 0xa5); sorter((T *)a.p, (T *)t.p, (zpl_isize)n); std::sort(v.begin(), v.end()); for (size_t i = 0; i < n; i++) REQUIRE(((T *)a.p)[i] == v[i], "item %zu of %zu is %llx, expected %llx", i, n, (unsigned long long)((T *)a.p)[i], (unsigned long long)v[i]); if (n >= 9) g.nontrivial();
}
PROPERTY(radix_sort, 80000, 2000000, "at least 9 items") { switch (g.u(4)) { case 0: radix<zpl_u8>(g, zpl_radix_sort_u8); break; case 1: radix<zpl_u16>(g, zpl_radix_sort_u16); break; case 2: radix<zpl_u32>(g, zpl_radix_sort_u32); break; default: radix<zpl_u64>(g, zpl_radix_sort_u64); } }
PROPERTY(search, 100000, 2500000, "at least 3 elements, searched for a key strictly between the smallest and largest") {
    size_t n = g.u(3) ? g.size(20) : g.size(400), size = 1 + g.u(12); std::vector<unsigned> v(n); for (auto &x : v) x = (unsigned)g.u(n < 100 ? 100 : 250); std::sort(v.begin(), v.end()); std::string raw; for (unsigned x : v) { std::string e(size, 's'); e[0] = (char)x; raw += e; } cmp_size = 1; Exact e(raw); unsigned key = (unsigned)g.u(256); Exact k(std::string(1, (char)key)); g.note("%zu elements, key %u", n, key);
    zpl_isize at = zpl_binary_search(e.p, (zpl_isize)n, (zpl_isize)size, k.p, cmp_bytes); bool in = std::binary_search(v.begin(), v.end(), key); if (in) REQUIRE(at >= 0 && at < (zpl_isize)n && v[(size_t)at] == key, "a present key is reported at %ld", (long)at); else REQUIRE(at == -1, "an absent key is reported at %ld", (long)at); if (n >= 3 && key > v[0] && key < v.back()) g.nontrivial();
}
PROPERTY(reverse_shuffle, 60000, 1500000, "at least 3 distinct elements") {
    int kind; auto k = keys(g, 300, kind); size_t n = k.size(), size = 1 + g.u(40); std::string raw; for (u64 x : k) { std::string e; for (size_t i = 0; i < size; i++) e += (char)(x >> (8 * (i % 8))); raw += e; } auto v = split(raw.data(), n, size); Exact e(raw), s(raw); g.note("%zu elements of %zu bytes", n, size); zpl_reverse(e.p, (zpl_isize)n, (zpl_isize)size); auto r = split((char *)e.p, n, size); REQUIRE(std::equal(r.begin(), r.end(), v.rbegin(), v.rend()), "reversing gives another sequence");
    zpl_shuffle(s.p, (zpl_isize)n, (zpl_isize)size); auto h = split((char *)s.p, n, size); std::sort(h.begin(), h.end()); std::sort(v.begin(), v.end()); REQUIRE(h == v, "the shuffled array has other elements than the original"); if (std::set<std::string>(v.begin(), v.end()).size() >= 3) g.nontrivial();
}
PROPERTY(shuffle_reaches, 1200, 12000, "at least 3 elements") {
    // every order of up to 4 elements turns up among 3000 shuffles (a given one stays away with probability below 1e-55), and of many elements at most half keep their places
    size_t n = g.boolean() ? 2 + g.u(3) : 40 + g.u(200); g.note("%zu elements", n); if (n >= 3) g.nontrivial();
    if (n <= 4) { std::set<std::string> seen; size_t f = n == 2 ? 2 : n == 3 ? 6 : 24; std::string keep = "abcd"; keep.resize(n); bool restart = g.boolean(); std::string cur = keep; for (int i = 0; i < 3000 && seen.size() < f; i++) { Exact e(restart ? keep : cur); char *q = e.c(); zpl_shuffle_array(q, (zpl_isize)n); cur = std::string(q, n); seen.insert(cur); } REQUIRE(seen.size() == f, "3000 shuffles of %zu elements show only %zu of %zu orders", n, seen.size(), f); }
    else { std::vector<unsigned> v(n); for (size_t i = 0; i < n; i++) v[i] = (unsigned)i; Exact e(std::string((char *)v.data(), n * 4)); unsigned *q = (unsigned *)e.p; zpl_shuffle_array(q, (zpl_isize)n); size_t same = 0; for (size_t i = 0; i < n; i++) same += q[i] == i; REQUIRE(same * 2 <= n, "%zu of %zu shuffled elements are where they were", same, n); std::vector<unsigned> h(q, q + n); zpl_reverse_array(q, (zpl_isize)n); REQUIRE(std::equal(h.rbegin(), h.rend(), q), "reversing gives another sequence"); }
}
