// M01: raw memory operations against a byte model, on exact-size blocks
// @so typed_unity g++ -O3 -std=gnu++17
#include "zh.hpp"
#include "typed_lib.hpp"
#include <limits>
static size_t len_pick(Gen &g, size_t max) {
    switch (g.u(6)) { case 0: return g.u(33); case 1: return std::min<size_t>(max, 8 * g.u(12) + g.u(3)); case 2: return std::min<size_t>(max, 250 + g.u(14)); case 3: return g.u(max + 1); case 4: return std::min<size_t>(max, 500 + g.u(40)); default: return g.u(70); }
}
static std::string fill(Gen &g, size_t n) {      // few distinct values so that searches hit and compares tie
    switch (g.u(4)) { case 0: return g.bytes(n); case 1: { std::string s(n, (char)g.draw(255)); for (u64 k = g.u(4); k-- && n;) s[g.draw(n - 1)] = (char)g.draw(255); return s; }
        case 2: { std::string s; for (size_t i = 0; i < n; i++) s += "\x00\x01\x7f\x80\x81\xff"[g.u(6)]; return s; }
        default: { std::string s(n, 0); u64 a = g.draw(255); for (size_t i = 0; i < n; i++) s[i] = (char)(a + i); return s; } }
}
static int sgn(long x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
PROPERTY(ops, 3000000, 40000000, "the operation covers at least 4 bytes") {
    // block: [head][a: n bytes][gap][b: n bytes][tail]; head/tail may be empty so both ends touch the red zone
    size_t n = len_pick(g, 700), head = g.u(17), gap = g.u(18), tail = g.u(3) ? 0 : g.u(9);
    std::string m = fill(g, head + n + gap + n + tail);
    if (g.u(3) == 0 && n) { memcpy(&m[head + n + gap], &m[head], n); if (g.u(2)) m[head + n + gap + g.draw(n - 1)] ^= (char)(1 + g.draw(254)); }   // (nearly) equal halves
    Exact e(m); unsigned char *a = e.p + head, *b = e.p + head + n + gap; size_t oa = head, ob = head + n + gap;
    int op = (int)g.u(9); g.note("op %d n %zu head %zu gap %zu tail %zu data %s", op, n, head, gap, tail, esc(m, 40).c_str());
    if (n >= 4) g.nontrivial();
    switch (op) {
        case 0: REQUIRE(zpl_memcopy(b, a, n) == b, "memcopy return"); memcpy(&m[ob], m.substr(oa, n).data(), n); break;
        case 1: {                                    // overlapping move inside the whole block
            size_t t = m.size(); if (!t) return; size_t s = g.u(t), d = g.chance(1, 2) ? (size_t)std::max<int64_t>(0, std::min<int64_t>(t - 1, (int64_t)s + g.range(-24, 24))) : g.u(t);
            size_t k = std::min(t - s, t - d); if (g.u(3)) k = g.u(k + 1);
            g.note("move %zu <- %zu len %zu", d, s, k);
            REQUIRE(zpl_memmove(e.p + d, e.p + s, k) == e.p + d, "memmove return"); std::string x = m.substr(s, k); memcpy(&m[d], x.data(), k); break; }
        case 2: { unsigned char c = (unsigned char)g.draw(255); REQUIRE(zpl_memset(a, c, n) == a, "memset return"); std::fill(m.begin() + oa, m.begin() + oa + n, (char)c); break; }
        case 3: { int r = zpl_memcompare(a, b, n), x = n ? memcmp(a, b, n) : 0; REQUIRE(sgn(r) == sgn(x), "memcompare %d, memcmp %d", r, x); int q = zpl_memcompare(b, a, n); REQUIRE(sgn(q) == -sgn(x), "memcompare is not antisymmetric"); break; }
        case 4: zpl_memswap(a, b, n); { std::string x = m.substr(oa, n), y = m.substr(ob, n); memcpy(&m[oa], y.data(), n); memcpy(&m[ob], x.data(), n); } break;
        case 5: { unsigned char c = g.u(2) && n ? (unsigned char)m[oa + g.draw(n - 1)] : (unsigned char)g.draw(255); size_t p = m.substr(oa, n).find((char)c); const void *r = zpl_memchr(a, c, n);
            REQUIRE(r == (p == std::string::npos ? 0 : a + p), "memchr %02x gives offset %ld, first occurrence is %ld", c, r ? (long)((unsigned char *)r - a) : -1L, (long)p); break; }
        case 6: { unsigned char c = g.u(2) && n ? (unsigned char)m[oa + g.draw(n - 1)] : (unsigned char)g.draw(255); size_t p = m.substr(oa, n).rfind((char)c); const void *r = zpl_memrchr(a, c, n);
            REQUIRE(r == (p == std::string::npos ? 0 : a + p), "memrchr %02x gives offset %ld, last occurrence is %ld", c, r ? (long)((unsigned char *)r - a) : -1L, (long)p); break; }
        case 7: zpl_zero_size(a, n); std::fill(m.begin() + oa, m.begin() + oa + n, 0); break;
        default: zpl_memswap(a, a, n); REQUIRE(zpl_memmove(a, a, n) == a, "self move"); break;
    }
    std::string now((char *)e.p, m.size());
    if (now != m) { size_t k = 0; while (now[k] == m[k]) k++; fail("byte %zu is %02x, expected %02x (op %d, n %zu, a at %zu, b at %zu)", k, (unsigned char)now[k], (unsigned char)m[k], op, n, oa, ob); }
}
PROPERTY(helpers, 1500000, 20000000, "a value above 255") {
    u64 v = g.u64any(); int64_t iv = (int64_t)g.i64any(); u64 al = 1ull << g.u(20);
    g.note("v %llx iv %lld align %llu", (unsigned long long)v, (long long)iv, (unsigned long long)al);
    if (v > 255) g.nontrivial();
    int bits = 0; for (int k = 0; k < 64; k++) bits += v >> k & 1;
    REQUIRE(zpl_count_set_bits(v) == bits, "count_set_bits(%llx) = %ld, want %d", (unsigned long long)v, (long)zpl_count_set_bits(v), bits);
    REQUIRE(!!zpl_is_power_of_two((zpl_isize)v) == ((int64_t)v > 0 && bits == 1), "is_power_of_two(%llx)", (unsigned long long)v);
    u64 r = 0; for (int k = 0; k < 8; k++) r = r << 8 | (v >> 8 * k & 255);
    REQUIRE(zpl_endian_swap64(v) == r, "endian_swap64(%llx) = %llx", (unsigned long long)v, (unsigned long long)zpl_endian_swap64(v));
    uint32_t v32 = (uint32_t)v, r32 = v32 << 24 | v32 >> 24 | (v32 >> 8 & 0xff00) | (v32 << 8 & 0xff0000);
    REQUIRE(zpl_endian_swap32(v32) == r32, "endian_swap32(%x) = %x", v32, zpl_endian_swap32(v32));
    uint16_t v16 = (uint16_t)v; REQUIRE(zpl_endian_swap16(v16) == (uint16_t)(v16 << 8 | v16 >> 8), "endian_swap16(%x) = %x", v16, zpl_endian_swap16(v16));
    int32_t p = (int32_t)(v % 0x40000001ull); if (p > 0) { int64_t w = 1; while (w < p) w *= 2; REQUIRE(zpl_next_pow2(p) == w, "next_pow2(%d) = %d, want %ld", p, zpl_next_pow2(p), (long)w); }
    uint32_t bit = (uint32_t)g.u(32), x = v32;
    REQUIRE(!!zpl_bit_get(x, bit) == (int)(x >> bit & 1), "bit_get(%08x, %u) = %d", x, bit, zpl_bit_get(x, bit));
    zpl_bit_set(&x, bit); REQUIRE(x == (v32 | 1u << bit), "bit_set(%08x, %u) = %08x", v32, bit, x); x = v32;
    zpl_bit_reset(&x, bit); REQUIRE(x == (v32 & ~(1u << bit)), "bit_reset(%08x, %u) = %08x", v32, bit, x);
    // alignment: the least multiple of the alignment that is not below the value
    u64 va = v >> 1, d = va % al; u64 want = d ? va + (al - d) : va;
    REQUIRE(zpl_align_forward_u64(va, al) == want, "align_forward_u64(%llx, %llx)", (unsigned long long)va, (unsigned long long)al);
    REQUIRE((u64)(uintptr_t)zpl_align_forward((void *)(uintptr_t)va, (zpl_isize)al) == want, "align_forward(%llx, %llx) = %p", (unsigned long long)va, (unsigned long long)al, zpl_align_forward((void *)(uintptr_t)va, (zpl_isize)al));
    int64_t ia = iv / 2, am = ia % (int64_t)al; if (am < 0) am += al; int64_t iw = am ? ia + ((int64_t)al - am) : ia;
    REQUIRE(zpl_align_forward_i64(ia, (zpl_isize)al) == iw, "align_forward_i64(%lld, %llu) = %lld, want %lld", (long long)ia, (unsigned long long)al, (long long)zpl_align_forward_i64(ia, (zpl_isize)al), (long long)iw);
    u64 anya = 1 + g.u(1000); u64 dd = va % anya; REQUIRE(zpl_align_forward_u64(va, anya) == (dd ? va + anya - dd : va), "align_forward_u64(%llx, %llu)", (unsigned long long)va, (unsigned long long)anya);
    char buf[64]; int off = (int)g.u(64), o2 = (int)g.u(64);
    REQUIRE(zpl_pointer_add(buf, off) == buf + off && zpl_pointer_sub(buf + off, off) == buf && zpl_pointer_add_const(buf, off) == buf + off && zpl_pointer_sub_const(buf + off, off) == buf, "pointer add/sub");
    REQUIRE(zpl_pointer_diff(buf + off, buf + o2) == o2 - off, "pointer_diff");
}

// Helper macros, with arguments that are expressions of their own.
struct Laid { char c; zpl_u64 u; char d; zpl_u16 h[5]; zpl_f32 f; };
PROPERTY(macros, 400000, 8000000, "values of which at least two differ") {
    zpl_i64 a = g.i64any() >> g.u(40) >> 1, b = g.boolean() ? a + g.range(-3, 3) : g.i64any() >> g.u(40) >> 1, c = g.boolean() ? b + g.range(-2, 2) : g.i64any() >> g.u(40) >> 1; int k = (int)g.range(-1, 1); bool t = g.boolean(); if (a != b || b != c) g.nontrivial(); g.note("%lld %lld %lld", (long long)a, (long long)b, (long long)c);
#define IS(expr, want) do { auto v_ = (expr); auto w_ = (want); REQUIRE(v_ == w_, "%s is %lld, expected %lld", #expr, (long long)v_, (long long)w_); } while (0)
    IS(zpl_min(a, b), std::min(a, b)); IS(zpl_max(a, b), std::max(a, b)); IS(zpl_min3(a, b, c), std::min(a, std::min(b, c))); IS(zpl_max3(a, b, c), std::max(a, std::max(b, c))); IS(2 * zpl_max(a & 255, b | 1), 2 * std::max(a & 255, b | 1)); IS(zpl_min(t ? a : b, t ? b : c) + 1, std::min(t ? a : b, t ? b : c) + 1);
    zpl_i64 lo = std::min(b, c), hi = std::max(b, c); IS(zpl_clamp(a, lo, hi), a < lo ? lo : a > hi ? hi : a); IS(!!zpl_is_between(a, lo, hi), a >= lo && a <= hi); IS(!!zpl_is_between_limit(a, lo, hi), a >= lo && a < hi); IS(!zpl_is_between(t ? a : b, lo, hi), !((t ? a : b) >= lo && (t ? a : b) <= hi)); double dd = (double)g.range(-3000, 3000) / 1000; IS(zpl_clamp01(dd) * 1000, std::min(std::max(dd, 0.), 1.) * 1000);
    IS(zpl_abs(a + k), a + k < 0 ? -(a + k) : a + k); zpl_i64 st = 1 + (zpl_i64)g.u(500); zpl_i64 na = zpl_abs(a); IS(zpl_step(na, st), na - na % st); IS(zpl_step(na + 0, st - 1 + 1) + 1, na - na % st + 1);
    { zpl_i64 x = a, y = b; if (t) zpl_swap(zpl_i64, x, y); else zpl_swap(zpl_i64, y, x); IS(x, b); IS(y, a); Laid l1, l2; l1.u = (zpl_u64)a; l2.u = (zpl_u64)b; Laid *pp[2] = {&l1, &l2}; zpl_swap(Laid *, pp[0], pp[1 * 1]); REQUIRE(pp[0] == &l2 && pp[1] == &l1, "swapped pointers"); zpl_i64 tmp = a, i = b, size = c; zpl_swap(zpl_i64, tmp, i); IS(tmp, b); IS(i, a); zpl_swap(zpl_i64, size, tmp); IS(size, b); IS(tmp, c); }
    { zpl_u32 v = (zpl_u32)a, m = (zpl_u32)b, w = v; bool set = g.boolean(); if (t) ZPL_MASK_SET(w, set, m); else w = 0; if (t) IS(w, set ? v | m : v & ~m); w = v; ZPL_MASK_SET(w, k, 1u << 4 | 1u); IS(w, k ? v | 17u : v & ~17u); unsigned bit = (unsigned)g.u(31); IS((zpl_u64)ZPL_BIT(bit), 1ull << bit); IS((zpl_u64)(ZPL_BIT(k + 2) * 3), (1ull << (k + 2)) * 3); }
    { zpl_u16 arr[7]; Laid many[3][2]; IS(zpl_count_of(arr), 7); IS(zpl_count_of(many), 3); IS(zpl_count_of(many[0]), 2); IS(zpl_size_of(Laid), (zpl_isize)sizeof(Laid)); IS(zpl_size_of(arr), 14); IS(zpl_offset_of(Laid, u), 8); IS(zpl_offset_of(Laid, h), 18); IS(zpl_offset_of(Laid, f), 28); IS(zpl_align_of(zpl_u64), 8); IS(zpl_align_of(char), 1); IS(zpl_align_of(zpl_u16), 2); IS(zpl_align_of(Laid), 8); }
    { zpl_u64 u = g.u64any(); double d = 1; ZPL_BIT_CAST(&d, u); REQUIRE(memcmp(&d, &u, 8) == 0, "ZPL_BIT_CAST changes bits"); zpl_u32 h = 5; ZPL_BIT_CAST(&h, u); IS(h, (zpl_u32)u); zpl_i64 m = g.range(-1000, 1000); IS(zpl_kilobytes(m + k), (m + k) * 1024); IS(zpl_megabytes(m + k), (m + k) * 1048576); IS(zpl_gigabytes(m + k), (m + k) * 1073741824ll); IS(zpl_terabytes(m - k), (m - k) * 1099511627776ll); IS(zpl_gigabytes(3), 3221225472ll); }
    { size_t n = 1 + g.u(12), cnt = g.u(n); std::string x = fill(g, n * sizeof(Laid)), y = fill(g, n * sizeof(Laid)); Exact A(x), B(y); Laid *p = (Laid *)A.p, *q = (Laid *)B.p; auto same = [&](const char *what) { REQUIRE(std::string((char *)A.p, x.size()) == x && std::string((char *)B.p, y.size()) == y, "%s of %zu + 1 elements of %zu touches other bytes or misses some", what, cnt, n); };
      switch (g.u(4)) { case 0: zpl_memcopy_array(p, q, cnt + 1); x.replace(0, (cnt + 1) * sizeof(Laid), y, 0, (cnt + 1) * sizeof(Laid)); same("zpl_memcopy_array"); break; case 1: { size_t off = g.u(n - cnt); std::string mv = x.substr(0, (cnt + 1) * sizeof(Laid)); zpl_memmove_array(p + off, p, cnt + 1); x.replace(off * sizeof(Laid), mv.size(), mv); same("zpl_memmove_array"); } break; case 2: zpl_zero_array(p, cnt + 1); x.replace(0, (cnt + 1) * sizeof(Laid), (cnt + 1) * sizeof(Laid), 0); same("zpl_zero_array"); break; default: zpl_zero_item(p + cnt); x.replace(cnt * sizeof(Laid), sizeof(Laid), sizeof(Laid), 0); same("zpl_zero_item"); } }
    REQUIRE(sizeof(zpl_u8) == 1 && sizeof(zpl_i8) == 1 && sizeof(zpl_u16) == 2 && sizeof(zpl_i16) == 2 && sizeof(zpl_u32) == 4 && sizeof(zpl_i32) == 4 && sizeof(zpl_u64) == 8 && sizeof(zpl_i64) == 8 && sizeof(zpl_f32) == 4 && sizeof(zpl_f64) == 8 && sizeof(zpl_usize) == sizeof(size_t) && sizeof(zpl_isize) == sizeof(size_t) && sizeof(zpl_intptr) == sizeof(void *) && sizeof(zpl_rune) == 4, "types");
    REQUIRE((zpl_u8)-1 > 0 && (zpl_u16)-1 > 0 && (zpl_u32)-1 > 0 && (zpl_u64)-1 > 0 && (zpl_usize)-1 > 0 && (zpl_uintptr)-1 > 0 && (zpl_i8)-1 < 0 && (zpl_i16)-1 < 0 && (zpl_i32)-1 < 0 && (zpl_i64)-1 < 0 && (zpl_isize)-1 < 0 && (zpl_intptr)-1 < 0, "signs");
    REQUIRE(ZPL_U8_MIN == 0 && ZPL_U8_MAX == UINT8_MAX && ZPL_I8_MIN == INT8_MIN && ZPL_I8_MAX == INT8_MAX && ZPL_U16_MIN == 0 && ZPL_U16_MAX == UINT16_MAX && ZPL_I16_MIN == INT16_MIN && ZPL_I16_MAX == INT16_MAX && ZPL_U32_MIN == 0 && ZPL_U32_MAX == UINT32_MAX && ZPL_I32_MIN == INT32_MIN && ZPL_I32_MAX == INT32_MAX && ZPL_U64_MIN == 0 && ZPL_U64_MAX == UINT64_MAX && ZPL_I64_MIN == INT64_MIN && ZPL_I64_MAX == INT64_MAX && ZPL_USIZE_MIN == 0 && ZPL_USIZE_MAX == SIZE_MAX && ZPL_ISIZE_MIN == PTRDIFF_MIN && ZPL_ISIZE_MAX == PTRDIFF_MAX, "limits");
    REQUIRE(ZPL_F32_MIN == std::numeric_limits<float>::min() && ZPL_F32_MAX == std::numeric_limits<float>::max() && ZPL_F64_MIN == std::numeric_limits<double>::min() && ZPL_F64_MAX == std::numeric_limits<double>::max(), "limits of the real types");
}
// The same operations on objects of the program's own types, the library compiled into one optimised C++ file with the program.
PROPERTY(typed, 400000, 6000000, "the operation covers at least 8 bytes") {
    TCase c = typed_case(g, 0, TK_MEM_OPS); static const char *N[] = {"memset", "memmove", "memcopy", "memswap", "zero_size", "memcompare", "memchr", "memrchr"}; size_t n = c.bytes(); std::string a = c.a, b = c.b; uint64_t r = 0; size_t at;
    g.note("%s on %s (%u %u %u %u), a %s b %s", N[c.op], c.name().c_str(), c.par[0], c.par[1], c.par[2], c.par[3], esc(c.a, 40).c_str(), esc(c.b, 40).c_str());
    switch (c.op) {
        case TK_SET: a.assign(n, (char)c.par[0]); break;
        case TK_MOVE: { size_t e = c.k->size; std::string x = a.substr(c.par[2] * e, c.par[3] * e); memcpy(&a[c.par[1] * e], x.data(), x.size()); } break;
        case TK_COPY: a = b; break;
        case TK_SWAP: std::swap(a, b); break;
        case TK_ZERO: a.assign(n, 0); break;
        case TK_COMPARE: { int k = memcmp(a.data(), b.data(), n); r = k < 0 ? 2 : k > 0 ? 1 : 0; } break;
        case TK_CHR: at = a.find((char)c.par[0]); r = at == std::string::npos ? ~0ull : at; break;
        default: at = a.rfind((char)c.par[0]); r = at == std::string::npos ? ~0ull : at;
    }
    if (n >= 8) g.nontrivial(); g.label(N[c.op]);
    REQUIRE(c.r == r, "%s on %s answers %lld, expected %lld", N[c.op], c.name().c_str(), (long long)c.r, (long long)r);
    REQUIRE(c.oa == a && c.ob == b, "after %s on %s the program reads %s and %s, expected %s and %s", N[c.op], c.name().c_str(), esc(c.oa, 80).c_str(), esc(c.ob, 80).c_str(), esc(a, 80).c_str(), esc(b, 80).c_str());
}
