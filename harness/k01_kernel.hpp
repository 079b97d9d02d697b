// the thread bodies of K01, compiled twice: against the zpl library (C, -O1) and with the zpl implementation in the same C++ translation unit (-O2)
#pragma once
#include <stddef.h>
#include <stdint.h>
struct KWord { alignas(64) zpl_atomic64 w; };                  // also used as zpl_atomic32 / zpl_atomic_ptr
struct KOp { int kind, word, spin, style; int64_t a; };        // 0 add, 1 exchange, 2 compare-exchange, 3 and, 4 or, 5 load
struct KRet { int64_t ret, expected; };
struct KShared { long a, b, c, d; };                           // plain data protected by a lock or a token
struct KBoth { KWord lock; KShared s; };                      // one object, so that the compiler knows the lock and the data do not overlap
struct KApi {
    void (*run)(int width, KWord *w, const KOp *ops, size_t n, KRet *out);
    long (*lock)(int width, KWord *lock, KShared *s, const KOp *ops, size_t n, long *bad);
    long (*section)(int width, KBoth *b, int shape, long n, int spin, long *bad);
    void (*token)(int width, KWord *tok, KShared *s, long self, long threads, long rounds, int style, int spin, long *bad);
    void (*store)(int width, KWord *w, const KOp *ops, size_t n, long *bad);
    int (*spin_lock)(int width, KWord *lock, int64_t timeout);
    int (*try_acquire)(int width, KWord *lock);
    void (*unlock)(int width, KWord *lock);
    int64_t (*one)(int width, KWord *w, int kind, int64_t a, int64_t b);
};
namespace {
struct W32 { typedef zpl_atomic32 T; typedef int32_t V; static T *at(KWord *w) { return (T *)&w->w; }
#define K_COMMON(P, VT) \
    static V load(T *t) { return (V)P##_load(t); } static void store(T *t, V v) { P##_store(t, (VT)v); } \
    static V cas(T *t, V e, V d) { return (V)P##_compare_exchange(t, (VT)e, (VT)d); } static V xchg(T *t, V d) { return (V)P##_exchange(t, (VT)d); } \
    static V add(T *t, V d) { return (V)P##_fetch_add(t, (VT)d); } static V and_(T *t, V d) { return (V)P##_fetch_and(t, (VT)d); } static V or_(T *t, V d) { return (V)P##_fetch_or(t, (VT)d); } \
    static int spin(T *t, int64_t n) { return P##_spin_lock(t, (zpl_isize)n); } static int tryl(T *t) { return P##_try_acquire_lock(t); } static void unlock(T *t) { P##_spin_unlock(t); }
    K_COMMON(zpl_atomic32, zpl_i32) };
struct W64 { typedef zpl_atomic64 T; typedef int64_t V; static T *at(KWord *w) { return (T *)&w->w; } K_COMMON(zpl_atomic64, zpl_i64) };
struct WP { typedef zpl_atomic_ptr T; typedef int64_t V; static T *at(KWord *w) { return (T *)&w->w; } K_COMMON(zpl_atomic_ptr, void *) };
static inline void k_pause(int spin) { for (int i = 0; i < spin; i++) { if (spin > 40) { sched_yield(); return; } __asm__ volatile("pause"); } }
template <class A> void k_run(KWord *w, const KOp *ops, size_t n, KRet *out) {
    typename A::V last[4] = { 0, 0, 0, 0 };
    for (size_t i = 0; i < n; i++) {
        const KOp &o = ops[i]; typename A::T *t = A::at(w + o.word); typename A::V v = (typename A::V)o.a, r = 0; out[i].expected = 0;
        switch (o.kind) {
            case 0: r = A::add(t, v); break; case 1: r = A::xchg(t, v); break;
            case 2: { typename A::V e = o.style ? A::load(t) : last[o.word]; out[i].expected = (int64_t)e; r = A::cas(t, e, v); break; }
            case 3: r = A::and_(t, v); break; case 4: r = A::or_(t, v); break; default: r = A::load(t);
        }
        last[o.word] = r; out[i].ret = (int64_t)r; k_pause(o.spin);
    }
}
template <class A> long k_lock(KWord *lock, KShared *s, const KOp *ops, size_t n, long *bad) {
    long got = 0; typename A::T *t = A::at(lock);
    for (size_t i = 0; i < n; i++) {
        const KOp &o = ops[i]; bool in = false;
        switch (o.kind) {
            case 0: in = A::spin(t, -1); if (!in) ++*bad; break;
            case 1: while (!(in = A::spin(t, o.a))) k_pause(o.spin + 41); break;
            case 2: while (!(in = A::tryl(t))) k_pause(o.spin + 41); break;
            case 3: while (A::cas(t, 0, 1) != 0) k_pause(o.spin + 41); in = true; break;
            case 4: while (A::xchg(t, 1) != 0) k_pause(o.spin + 41); in = true; break;
            case 5: in = A::spin(t, o.a); break;
            default: in = A::tryl(t);
        }
        if (!in) continue;
        got++;
        long a = s->a; if (s->b != a || s->c != a || s->d != a) ++*bad;
        s->a = a + 1; s->b = a + 1; if (o.style & 2) k_pause(o.spin); s->c = s->b; s->d = a + 1;
        if (o.style & 1) A::store(t, 0); else A::unlock(t);
    }
    return got;
}
static inline long k_step(long a) { unsigned long x = (unsigned long)a; x = x * 6364136223846793005ul + 1442695040888963407ul; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ul; return (long)(x ^ x >> 32); }
// short sections with the way of taking and releasing fixed at compile time, so that the compiler may schedule across them if nothing forbids it
template <class A, int ACQ, int REL> long k_shape(KBoth *b, long n, int spin, long *bad) {
    long got = 0; typename A::T *t = A::at(&b->lock); KShared *s = &b->s;
    for (long i = 0; i < n; i++) {
        long guess = s->d; bool in = ACQ == 0 ? A::tryl(t) != 0 : ACQ == 1 ? A::cas(t, 0, 1) == 0 : ACQ == 2 ? A::xchg(t, 1) == 0 : A::spin(t, 3) != 0;
        if (in) {
            got++; guess += s->d; long a = s->a; s->c += guess & 1; s->d++; s->a = k_step(a);
            if (REL == 0) A::unlock(t); else A::store(t, 0);
        } else *bad += guess < 0;
        k_pause(spin);
    }
    return got;
}
template <class A> long k_section(KBoth *b, int shape, long n, int spin, long *bad) {
    switch (shape) { case 0: return k_shape<A, 0, 0>(b, n, spin, bad); case 1: return k_shape<A, 0, 1>(b, n, spin, bad); case 2: return k_shape<A, 1, 0>(b, n, spin, bad); case 3: return k_shape<A, 1, 1>(b, n, spin, bad);
        case 4: return k_shape<A, 2, 0>(b, n, spin, bad); case 5: return k_shape<A, 2, 1>(b, n, spin, bad); case 6: return k_shape<A, 3, 0>(b, n, spin, bad); default: return k_shape<A, 3, 1>(b, n, spin, bad); }
}
template <class A> void k_token(KWord *tok, KShared *s, long self, long threads, long rounds, int style, int spin, long *bad) {
    typename A::T *t = A::at(tok); typedef typename A::V V;
    for (long r = 0; r < rounds; r++) {
        long want = r * threads + self;
        if (style & 8) while ((long)A::add(t, 0) != want) k_pause(spin); else while ((long)A::load(t) != want) k_pause(spin);
        if (s->a != want || s->b != want || s->c != want || s->d != want) ++*bad;
        s->a = want + 1; s->b++; s->c = s->a; s->d = s->b;
        switch (style & 7) { case 0: A::add(t, 1); break; case 1: if ((long)A::cas(t, (V)want, (V)(want + 1)) != want) ++*bad; break; case 2: if ((long)A::xchg(t, (V)(want + 1)) != want) ++*bad; break; default: A::store(t, (V)(want + 1)); }
    }
}
template <class A> void k_store(KWord *w, const KOp *ops, size_t n, long *bad) {
    typename A::T *t = A::at(w); const int h = sizeof(typename A::V) * 4;
    typedef typename A::V V; const uint64_t m = h == 32 ? 0xffffffffu : 0xffffu;
    for (size_t i = 0; i < n; i++) {
        const KOp &o = ops[i]; uint64_t p = (uint64_t)o.a & m; V v = (V)(p << h | p), r = 0; bool look = true;
        if (o.kind == 0) { A::store(t, v); look = false; } else if (o.kind == 1) r = A::xchg(t, v); else r = A::load(t);
        if (look && (((uint64_t)r >> h) & m) != ((uint64_t)r & m)) ++*bad;
    }
}
#define K_W(f, ...) (width == 0 ? f<W32>(__VA_ARGS__) : width == 1 ? f<W64>(__VA_ARGS__) : f<WP>(__VA_ARGS__))
template <class A> int k_spin(KWord *w, int64_t n) { return A::spin(A::at(w), n); }
template <class A> int k_try(KWord *w) { return A::tryl(A::at(w)); }
template <class A> void k_unl(KWord *w) { A::unlock(A::at(w)); }
template <class A> int64_t k_one(KWord *w, int kind, int64_t a, int64_t b) {
    typename A::T *t = A::at(w); typedef typename A::V V;
    switch (kind) { case 0: return A::add(t, (V)a); case 1: return A::xchg(t, (V)a); case 2: return A::cas(t, (V)a, (V)b); case 3: return A::and_(t, (V)a); case 4: return A::or_(t, (V)a); case 6: A::store(t, (V)a); return 0; default: return A::load(t); }
}
static const KApi k_api = {
    [](int width, KWord *w, const KOp *o, size_t n, KRet *r) { K_W(k_run, w, o, n, r); },
    [](int width, KWord *l, KShared *s, const KOp *o, size_t n, long *bad) { return K_W(k_lock, l, s, o, n, bad); },
    [](int width, KBoth *b, int shape, long n, int spin, long *bad) { return K_W(k_section, b, shape, n, spin, bad); },
    [](int width, KWord *t, KShared *s, long self, long threads, long rounds, int style, int spin, long *bad) { K_W(k_token, t, s, self, threads, rounds, style, spin, bad); },
    [](int width, KWord *w, const KOp *o, size_t n, long *bad) { K_W(k_store, w, o, n, bad); },
    [](int width, KWord *w, int64_t n) { return K_W(k_spin, w, n); },
    [](int width, KWord *w) { return K_W(k_try, w); },
    [](int width, KWord *w) { K_W(k_unl, w); },
    [](int width, KWord *w, int kind, int64_t a, int64_t b) { return K_W(k_one, w, kind, a, b); } };
}
