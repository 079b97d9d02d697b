// R01: random numbers are reproducible, in range, and unique where promised
// @fuzz-quick 0
// @fuzz-thorough 0
#include "zh.hpp"
#include <sys/syscall.h>
#include <cfloat>
// The clock the seeding reads may jump arbitrarily between two readings (a preempted thread).
static bool fake; static u64 fake_ns, fake_jump_seed; static int fake_kind;
extern "C" int clock_gettime(clockid_t id, struct timespec *t) {
    if (!fake) return (int)syscall(SYS_clock_gettime, id, t);
    u64 j = splitmix(fake_jump_seed); switch (fake_kind) { case 0: j %= 1000; break; case 1: j %= 2000000000; break; case 2: j = j % 4 ? j % 1000 : 900000000 + j % 200000000; break; default: j %= 100000000000ull; }
    fake_ns += j; t->tv_sec = (time_t)(fake_ns / 1000000000); t->tv_nsec = (long)(fake_ns % 1000000000); return 0;
}
static zpl_random state(Gen &g) { zpl_random r; memset(&r, 0, sizeof r); for (auto &o : r.offsets) o = g.u(3) ? (zpl_u32)g.u(1ull << 32) : g.boolean() ? (zpl_u32)g.u(4) : (zpl_u32)(0u - 1 - g.u(4)); r.value = g.boolean() ? (zpl_u32)g.u(1ull << 32) : (zpl_u32)(0u - 1 - g.u(300)); return r; }
static u64 mulmod(u64 x) { return (u64)((unsigned __int128)x * x % 4294967291u); }
PROPERTY(reproducible, 60000, 1500000, "at least 4 draws of at least 2 kinds") {
    zpl_random a = state(g), b = a; size_t n = 1 + g.size(40); int kinds = 0;
    for (size_t i = 0; i < n; i++) {
        int k = (int)g.u(6); kinds |= 1 << k; zpl_i64 lo = 0, hi = 0; double flo = 0, fhi = 0; if (k == 4) { lo = g.range(-1000, 1000); hi = lo + (zpl_i64)g.u(2000); } if (k == 5) { flo = (double)g.range(-1000, 1000); fhi = flo + (double)g.u(100); }
        auto draw = [&](zpl_random *r) -> u64 { double f; u64 u; switch (k) { case 0: return zpl_random_gen_u32(r); case 1: return zpl_random_gen_u32_unique(r); case 2: return zpl_random_gen_u64(r); case 3: return (u64)zpl_random_gen_isize(r); case 4: return (u64)zpl_random_range_i64(r, lo, hi); default: f = zpl_random_range_f64(r, flo, fhi); memcpy(&u, &f, 8); return u; } };
        zpl_random before = a; u64 x = draw(&a), y = draw(&b); REQUIRE(x == y, "draw %zu (kind %d) differs between two generators in the same state: %llx, %llx", i, k, (unsigned long long)x, (unsigned long long)y);
        REQUIRE(!memcmp(&a, &b, sizeof a), "the generators' states differ after draw %zu", i);
        if (k == 2 || k == 3) { u64 p = zpl_random_gen_u32(&before), q = zpl_random_gen_u32(&before); REQUIRE(x == (p << 32 | q) || x == (q << 32 | p), "the 64-bit number %llx is not made of the next two 32-bit numbers %llx and %llx", (unsigned long long)x, (unsigned long long)p, (unsigned long long)q); }
    }
    if (n >= 4 && (kinds & (kinds - 1))) g.nontrivial();
}
static i64 bound(Gen &g) { switch (g.u(4)) { case 0: return g.i64any(); case 1: return INT64_MIN + (i64)g.u(3); case 2: return INT64_MAX - (i64)g.u(3); default: return g.range(-50, 50); } }
PROPERTY(ranges, 150000, 4000000, "a range of at least 2 values") {
    zpl_random r = state(g); i64 lo = bound(g), hi = bound(g); if (g.u(4) == 0) hi = lo + (i64)g.u(lo > INT64_MAX - 3 ? 1 : 4); if (lo > hi) std::swap(lo, hi); g.note("[%lld, %lld]", (long long)lo, (long long)hi); bool is = g.boolean();
    u64 width = (u64)hi - (u64)lo; int n = width < 8 ? 250 : 20; unsigned seen = 0; bool below = false, above = false;
    for (int i = 0; i < n; i++) { i64 x = is ? zpl_random_range_isize(&r, lo, hi) : zpl_random_range_i64(&r, lo, hi); REQUIRE(x >= lo && x <= hi, "draw %d, %lld, is outside [%lld, %lld]", i, (long long)x, (long long)lo, (long long)hi); if (width < 8) seen |= 1u << (u64)(x - lo); ((u64)x - (u64)lo < width / 2 ? below : above) = true; }
    // each of at most 8 values escapes 250 fair draws with probability 3e-15
    if (width < 8) REQUIRE(seen == (2u << width) - 1, "some of the %llu values of [%lld, %lld] never occur in 250 draws (mask %x)", (unsigned long long)width + 1, (long long)lo, (long long)hi, seen);
    if (width) g.nontrivial();
}
static double real(Gen &g) { switch (g.u(6)) { case 0: return (double)g.range(-100, 100); case 1: return (double)g.range(-100, 100) / 7; case 2: return (g.boolean() ? 1 : -1) * DBL_MAX * (g.boolean() ? 1 : 0.7); case 3: return (g.boolean() ? 1 : -1) * DBL_MIN; case 4: return ldexp((double)g.range(-1000, 1000), (int)g.range(-1060, 1000)); default: return 0; } }
PROPERTY(real_ranges, 150000, 4000000, "lower bound below the upper bound") {
    zpl_random r = state(g); double lo = real(g), hi = real(g); if (g.u(4) == 0) { hi = lo; for (u64 k = g.u(4); k--;) hi = nextafter(hi, INFINITY); } if (lo > hi) std::swap(lo, hi); g.note("[%.17g, %.17g]", lo, hi); double mn = INFINITY, mx = -INFINITY;
    for (int i = 0; i < 60; i++) { double x = zpl_random_range_f64(&r, lo, hi); REQUIRE(x >= lo && x <= hi, "draw %d, %.17g, is outside [%.17g, %.17g]", i, x, lo, hi); mn = std::min(mn, x); mx = std::max(mx, x); }
    double mid = lo / 2 + hi / 2; if (hi / 4 - lo / 4 > 1e-3 * std::max(fabs(lo), fabs(hi)) && hi / 4 - lo / 4 > 1e-300) { REQUIRE(mn < mid && mx > mid, "60 draws from [%.17g, %.17g] all lie on one side of its middle", lo, hi); }
    if (lo < hi) g.nontrivial();
}
PROPERTY(unique, 3000, 60000, "at least 1000 draws") {
    // one window of the sequence never repeats a value; over the whole cycle that means the step is a bijection
    zpl_random r = state(g); size_t n = 1 + (size_t)g.u(20000); if (g.boolean()) { static const u64 mid[] = {0, 1ull << 31, 2147483645, 4294967291u, 1u << 16, 65521ull << 15}; r.value = (zpl_u32)(mid[g.u(6)] - g.u(n + 1)); } g.note("%zu draws from position %u", n, r.value); std::vector<zpl_u32> v(n); for (auto &x : v) x = zpl_random_gen_u32_unique(&r); auto s = v; std::sort(s.begin(), s.end()); for (size_t i = 0; i + 1 < n; i++) REQUIRE(s[i] != s[i + 1], "the value %u occurs twice within %zu draws", s[i], n); if (n >= 1000) g.nontrivial();
}
PROPERTY(unique_long, 16, 600, "always (2^23 consecutive positions of the cycle)") {
    zpl_random r = state(g); r.value = g.u(3) ? (zpl_u32)((u64)g.u(512) << 23) : (zpl_u32)g.u(1ull << 32); g.note("2^23 draws from position %u", r.value); std::vector<u64> seen(1u << 26);
    for (u64 i = 0; i < 1u << 23; i++) { zpl_u32 p = r.value, v = zpl_random_gen_u32_unique(&r); REQUIRE(!(seen[v >> 6] >> (v & 63) & 1), "the value of position %u, %u, occurs twice within 2^23 draws", p, v); seen[v >> 6] |= 1ull << (v & 63); } g.nontrivial();
}
PROPERTY(unique_far, 60000, 3000000, "always") {
    // collisions between far-apart positions of the cycle: x and p-x are the pair a quadratic permutation has to tell apart, and inverse images are found by construction
    zpl_random r = state(g); zpl_u32 x = (zpl_u32)g.u(1ull << 32), y; const zpl_u32 p = 4294967291u; switch (g.u(5)) { case 0: y = x < p ? p - x : ~x; break; case 1: y = ~x; break; case 2: y = (zpl_u32)mulmod(x); break; case 3: y = x ^ (1u << g.u(32)); break; default: y = x + (zpl_u32)g.u(1 << 20); } if (x == y) throw Discard();
    zpl_random a = r, b = r; a.value = x; b.value = y; zpl_u32 u = zpl_random_gen_u32_unique(&a), w = zpl_random_gen_u32_unique(&b); g.note("positions %u and %u", x, y); REQUIRE(u != w, "positions %u and %u of the cycle give the same value %u", x, y, u);
    REQUIRE(a.value == x + 1 && b.value == y + 1, "a draw does not advance to the next position of the cycle"); g.nontrivial();
}
PROPERTY(seeding, 40000, 400000, "the clock moves by a second or more between two readings") {
    fake_kind = (int)g.u(4); fake_ns = g.u(3000000000ull); fake_jump_seed = g.u(1u << 30); g.note("clock starts at %llu ns, jump kind %d", (unsigned long long)fake_ns, fake_kind); zpl_random r[8]; fake = true; for (auto &x : r) zpl_random_init(&x); fake = false;
    for (int i = 0; i < 8; i++) for (int j = 0; j < i; j++) { zpl_random a = r[i], b = r[j]; bool same = true; for (int k = 0; k < 4; k++) same &= zpl_random_gen_u32(&a) == zpl_random_gen_u32(&b); REQUIRE(!same, "two separately seeded generators give the same numbers"); }
    if (fake_kind) g.nontrivial();
}
PROPERTY(spread, 2000, 40000, "always") {
    // coarse: each bit of 400 draws is set at least once and clear at least once (probability of a false alarm below 1e-118 per bit)
    zpl_random r = state(g); zpl_u32 o = 0, a = ~0u; u64 o6 = 0, a6 = ~0ull; int k = (int)g.u(2); for (int i = 0; i < 400; i++) { zpl_u32 x = k ? zpl_random_gen_u32(&r) : zpl_random_gen_u32_unique(&r); o |= x; a &= x; u64 y = zpl_random_gen_u64(&r); o6 |= y; a6 &= y; } REQUIRE(o == ~0u && a == 0 && o6 == ~0ull && a6 == 0, "some bit is constant over 400 draws (or %x and %x, %llx, %llx)", o, a, (unsigned long long)o6, (unsigned long long)a6); g.nontrivial();
}
PROPERTY(repeats, 24, 600, "always (2^20 draws)") {
    // 32-bit numbers drawn with replacement repeat: about 128 times among 2^20 draws (probability of none: e^-128); a generator that merely walks along a permutation never repeats
    zpl_random r = state(g); size_t n = 1u << 20; g.note("2^20 draws from value %u", r.value); std::vector<u64> seen(1u << 26); long rep = 0; for (size_t i = 0; i < n; i++) { zpl_u32 x = zpl_random_gen_u32(&r); rep += seen[x >> 6] >> (x & 63) & 1; seen[x >> 6] |= 1ull << (x & 63); }
    g.nontrivial(); REQUIRE(rep > 0 && rep < 1500, "2^20 draws of 32 bits repeat an earlier number %ld times, about 128 are due", rep);
}
