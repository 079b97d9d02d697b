#define ZPL_IMPLEMENTATION
#include "zpl.h"
#include "typed_kernel.hpp"
struct Pair { float x; short y, z; };
// single volatile accesses to the harness's copies keep the compiler from turning the surrounding loops into memcpy
template <class T> static inline void take(T &d, const T *s) { d = *(const volatile T *)s; }
template <class T> static inline void give(T *d, const T &s) { *(volatile T *)d = s; }
static inline void take(Pair &d, const Pair *s) { d.x = *(const volatile float *)&s->x; d.y = *(const volatile short *)&s->y; d.z = *(const volatile short *)&s->z; }
static inline void give(Pair *d, const Pair &s) { *(volatile float *)&d->x = s.x; *(volatile short *)&d->y = s.y; *(volatile short *)&d->z = s.z; }
static uint64_t off(const void *p, const void *base) { return p ? (uint64_t)((const char *)p - (const char *)base) : ~0ull; }
template <class T> static inline __attribute__((always_inline)) uint64_t op(int o, T *a, T *b, size_t n, size_t bytes, const unsigned *par) {
    switch (o) {
    case TK_SET: return off(zpl_memset(a, (zpl_u8)par[0], (zpl_isize)bytes), a);
    case TK_MOVE: return off(zpl_memmove(a + par[1], a + par[2], (zpl_isize)(par[3] * sizeof(T))), a + par[1]);
    case TK_COPY: return off(zpl_memcopy(a, b, (zpl_isize)bytes), a);
    case TK_SWAP: zpl_memswap(a, b, (zpl_isize)bytes); return 0;
    case TK_ZERO: zpl_zero_size(a, (zpl_isize)bytes); return 0;
    case TK_COMPARE: { int r = zpl_memcompare(a, b, (zpl_isize)bytes); return r < 0 ? 2 : r > 0 ? 1 : 0; }
    case TK_CHR: return off(zpl_memchr(a, (zpl_u8)par[0], (zpl_isize)bytes), a);
    case TK_RCHR: return off(zpl_memrchr(a, (zpl_u8)par[0], (zpl_isize)bytes), a);
    case TK_ADLER: return zpl_adler32(a, (zpl_isize)bytes);
    case TK_CRC32: return zpl_crc32(a, (zpl_isize)bytes);
    case TK_CRC64: return zpl_crc64(a, (zpl_isize)bytes);
    case TK_FNV32: return zpl_fnv32(a, (zpl_isize)bytes);
    case TK_FNV32A: return zpl_fnv32a(a, (zpl_isize)bytes);
    case TK_FNV64: return zpl_fnv64(a, (zpl_isize)bytes);
    case TK_FNV64A: return zpl_fnv64a(a, (zpl_isize)bytes);
    case TK_M32: return zpl_murmur32_seed(a, (zpl_isize)bytes, par[0]);
    case TK_M64: return zpl_murmur64_seed(a, (zpl_isize)bytes, par[0]);
    }
    return 0;
}
// one function per operation, so that the operation and the length are constants to the compiler
template <class T, int N, int O> static __attribute__((noinline)) uint64_t fixed(const void *ia, const void *ib, void *oa, void *ob, const unsigned *par) {
    T a[N], b[N]; const T *sa = (const T *)ia, *sb = (const T *)ib; for (int i = 0; i < N; i++) take(a[i], sa + i), take(b[i], sb + i);
    uint64_t r = op<T>(O, a, b, N, sizeof(T) * N, par);
    T *da = (T *)oa, *db = (T *)ob; for (int i = 0; i < N; i++) give(da + i, a[i]), give(db + i, b[i]); return r;
}
// length and place known only when run; the objects are the caller's
template <class T, int O> static __attribute__((noinline)) uint64_t any(T *a, T *b, const T *sa, const T *sb, int n, const unsigned *par, T *da, T *db) {
    for (int i = 0; i < n; i++) take(a[i], sa + i), take(b[i], sb + i);
    uint64_t r = op<T>(O, a, b, (size_t)n, sizeof(T) * (size_t)n, par);
    for (int i = 0; i < n; i++) give(da + i, a[i]), give(db + i, b[i]); return r;
}
template <class T, int N, int O> struct Pick { static uint64_t go(int o, const void *a, const void *b, void *oa, void *ob, const unsigned *par) {
    if (o != O) return Pick<T, N, O - 1>::go(o, a, b, oa, ob, par);
    if (par[4]) { T *h = (T *)malloc(2 * N * sizeof(T)); uint64_t r = any<T, O>(h, h + N, (const T *)a, (const T *)b, N, par, (T *)oa, (T *)ob); free(h); return r; }
    return fixed<T, N, O>(a, b, oa, ob, par); } };
template <class T, int N> struct Pick<T, N, -1> { static uint64_t go(int, const void *, const void *, void *, void *, const unsigned *) { return 0; } };
template <class T, int N> static uint64_t run(int o, const void *a, const void *b, void *oa, void *ob, const unsigned *par) { return Pick<T, N, TK_OPS - 1>::go(o, a, b, oa, ob, par); }
#define E(T, N) { #T, sizeof(T), N, run<T, N> }
#define ROW(T) E(T, 1), E(T, 2), E(T, 3), E(T, 4), E(T, 10), E(T, 40)
static const TKernel ks[] = { ROW(float), ROW(double), ROW(int16_t), ROW(uint64_t), ROW(Pair) };
static const TApi api = { sizeof ks / sizeof *ks, ks };
extern "C" __attribute__((visibility("default"))) const TApi *typed_unity(void) { return &api; }
