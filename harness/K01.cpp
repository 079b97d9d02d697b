// K01: atomic operations are indivisible and locks exclude
// @so K01_unity g++ -O2 -std=gnu++17
// @workers 4
// @cpu-limit 200
// @wall-limit 60
// @assume schedules are those the kernel and 8 cores produced during the run (oversubscribed, with generated pauses and yields), not an enumeration; x86-64 only
#include "zh.hpp"
#include "k01_kernel.hpp"
#include <dlfcn.h>
#include <sched.h>
#include <thread>
#include <atomic>
static const KApi *api(int unity) {
    if (!unity) return &k_api;
    static const KApi *u = 0;
    if (!u) { const char *p = getenv("PBT_SO"); void *h = p ? dlopen(p, RTLD_NOW | RTLD_LOCAL) : 0; if (!h) { fprintf(stderr, "cannot load %s: %s\n", p ? p : "(unset)", dlerror()); _exit(3); } u = ((const KApi *(*)())dlsym(h, "k01_unity"))(); }
    return u;
}
static i64 trunc(int width, i64 v) { return width == 0 ? (i64)(int32_t)v : v; }
static const char *WN[] = { "32", "64", "ptr" };
// run f(0..n-1) on n threads that start together
template <class F> static void together(int n, F f) {
    std::atomic<int> ready{0}; std::vector<std::thread> ts;
    for (int i = 0; i < n; i++) ts.emplace_back([&, i] { ready++; while (ready.load() < n) sched_yield(); f(i); });
    for (auto &t : ts) t.join();
}
static int gpause(Gen &g) { return g.chance(1, 3) ? 0 : g.chance(1, 8) ? 41 : (int)g.u(20); }
static i64 gval(Gen &g) { i64 v = g.i64any(); return g.chance(1, 3) ? (i64)g.u(4) - 1 : v; }

PROPERTY(meaning, 4000, 200000, "a sequence of at least three operations of two kinds") {
    int unity = g.boolean(), width = (int)g.u(3); const KApi *k = api(unity); KWord w; memset(&w, 0xA5, sizeof w);
    i64 model = trunc(width, gval(g)); k->one(width, &w, 6, model, 0); int n = 1 + (int)g.size(30); std::set<int> kinds;
    for (int i = 0; i < n; i++) {
        int kind = (int)g.u(10); i64 a = trunc(width, gval(g)), b = trunc(width, gval(g));
        if (kind == 2 && g.chance(2, 3)) a = model;
        if (kind >= 7) { model = g.boolean(); k->one(width, &w, 6, model, 0); }
        kinds.insert(kind); i64 before = model, r = 0;
        if (kind == 7) { i64 to = (i64)g.u(4); if (model && g.chance(1, 2)) to = (i64)g.u(200); r = k->spin_lock(width, &w, to); REQUIRE((r != 0) == (before == 0), "spin_lock on a lock word %lld with time-out %lld returned %lld", (long long)before, (long long)to, (long long)r); model = 1; }
        else if (kind == 8) { r = k->try_acquire(width, &w); REQUIRE((r != 0) == (before == 0), "try_acquire_lock on a lock word %lld returned %lld", (long long)before, (long long)r); model = 1; }
        else if (kind == 9) { k->unlock(width, &w); model = 0; }
        else {
            r = k->one(width, &w, kind, a, b);
            switch (kind) { case 0: model = trunc(width, (i64)((u64)model + (u64)a)); break; case 1: model = a; break; case 2: if (model == a) model = b; break; case 3: model &= a; break; case 4: model |= a; break; case 6: model = a; break; default: break; }
            if (kind != 6) REQUIRE(r == before, "atomic%s operation %d (0 add, 1 exchange, 2 compare-exchange, 3 and, 4 or, 5 load) with %lld, %lld returned %lld, the value before was %lld", WN[width], kind, (long long)a, (long long)b, (long long)r, (long long)before);
        }
        i64 now = k->one(width, &w, 5, 0, 0); REQUIRE(now == model, "atomic%s operation %d with %lld, %lld on %lld left %lld, expected %lld", WN[width], kind, (long long)a, (long long)b, (long long)before, (long long)now, (long long)model);
        if (width == 0) { unsigned up; memcpy(&up, (char *)&w + 4, 4); REQUIRE(up == 0xA5A5A5A5u, "a 32 bit operation changed the 4 bytes behind its word"); }
        for (size_t o = 8; o < sizeof(KWord); o++) REQUIRE(((unsigned char *)&w)[o] == 0xA5, "an operation changed memory behind its word");
    }
    if (n >= 3 && kinds.size() >= 2) g.nontrivial();
}
// every operation takes the word from the value it returned to a new value: the operations of all threads must join to one path from the first to the last value
PROPERTY(no_lost_update, 6000, 40000, "at least two threads performed at least ten operations each on one word", 1) {
    int unity = g.boolean(), width = (int)g.u(3), T = 2 + (int)g.u(g.chance(1, 3) ? 7 : 3), words = 1 + (int)g.u(2); const KApi *k = api(unity);
    int per = 10 + (int)g.size(600), mix = (int)g.u(6); static KWord w[4]; i64 init[4]; bool same_pause = g.boolean(); int pause = gpause(g);
    std::vector<std::vector<KOp>> ops((size_t)T); std::vector<std::vector<KRet>> ret((size_t)T); u64 s = g.u64any();
    for (int i = 0; i < words; i++) { init[i] = trunc(width, gval(g)); k->one(width, &w[i], 6, init[i], 0); }
    for (int t = 0; t < T; t++) for (int i = 0; i < per; i++) {
        KOp o; u64 r = splitmix(s), v = splitmix(s); o.kind = mix == 0 ? 0 : mix == 1 ? 2 : mix == 2 ? 3 + (int)(r % 2) : mix == 3 ? 1 : (int)(r % 6); o.word = (int)((r >> 8) % (u64)words); o.style = (int)(r >> 16) & 1; o.spin = same_pause ? pause : (int)((r >> 20) % 24);
        bool bits = (r >> 30) & 1;
        o.a = o.kind == 3 ? (i64)~(1ull << (v % 64)) : o.kind == 4 ? (i64)(1ull << (v % 64)) : o.kind == 0 ? (bits ? 1 : (i64)((v % 7) - 3)) : (i64)(bits ? v : (u64)t * 1000003 + (u64)i);
        o.a = trunc(width, o.a); ops[t].push_back(o);
    }
    for (auto &o : ops) ret[&o - &ops[0]].resize(o.size());
    g.note("%s build, atomic%s, %d threads, %d operations each on %d words, mix %d", unity ? "single-file C++" : "library", WN[width], T, per, words, mix);
    together(T, [&](int t) { k->run(width, w, ops[t].data(), ops[t].size(), ret[t].data()); });
    for (int x = 0; x < words; x++) {
        i64 fin = k->one(width, &w[x], 5, 0, 0); std::map<i64, i64> deg; std::map<i64, i64> root; std::vector<std::pair<i64, i64>> loads;
        std::function<i64(i64)> find = [&](i64 v) { i64 r = v; while (root.count(r) && root[r] != r) r = root[r]; while (root.count(v) && root[v] != r) { i64 nx = root[v]; root[v] = r; v = nx; } root[r] = r; return r; };
        find(init[x]);
        for (int t = 0; t < T; t++) for (size_t i = 0; i < ops[t].size(); i++) {
            const KOp &o = ops[t][i]; if (o.word != x) continue;
            i64 from = ret[t][i].ret, to = from;
            switch (o.kind) { case 0: to = trunc(width, (i64)((u64)from + (u64)o.a)); break; case 1: to = o.a; break; case 2: if (from == ret[t][i].expected) to = o.a; break; case 3: to = from & o.a; break; case 4: to = from | o.a; break; default: break; }
            deg[from]++; deg[to]--; root[find(from)] = find(to);
        }
        deg[init[x]]--; deg[fin]++;
        for (auto &d : deg) REQUIRE(d.second == 0, "no order of the %d threads' operations explains the values they returned: value %lld was left %+lld times more than it was reached (started at %lld, ended at %lld)", T, (long long)d.first, (long long)d.second, (long long)init[x], (long long)fin);
        i64 r0 = find(init[x]); for (auto &d : deg) REQUIRE(find(d.first) == r0, "value %lld was returned but cannot be reached from the initial value %lld", (long long)d.first, (long long)init[x]);
    }
    g.nontrivial(); g.label(mix == 0 ? "add" : mix == 1 ? "compare-exchange" : mix == 2 ? "and/or" : mix == 3 ? "exchange" : "mixed");
}
PROPERTY(locks_exclude, 8000, 30000, "at least two threads entered the section at least ten times in all", 1) {
    int unity = g.boolean(), width = (int)g.u(3), T = 2 + (int)g.u(g.chance(1, 3) ? 5 : 3); const KApi *k = api(unity); int per = 5 + (int)g.size(500), mix = (int)g.u(8); bool store = g.boolean(), linger = g.boolean();
    static KWord lock; static KShared s; memset(&s, 0, sizeof s); k->one(width, &lock, 6, 0, 0); std::vector<std::vector<KOp>> ops((size_t)T); std::vector<long> got((size_t)T), bad((size_t)T); u64 seed = g.u64any(); long must = 0;
    for (int t = 0; t < T; t++) for (int i = 0; i < per; i++) { KOp o; u64 r = splitmix(seed); o.kind = mix < 7 ? mix : (int)(r % 7); o.a = (i64)((r >> 8) % 50); o.spin = (int)((r >> 16) % 40); o.style = (store ? 1 : 0) | (linger ? 2 : 0); o.word = 0; ops[t].push_back(o); must += o.kind < 5; }
    g.note("%s build, atomic%s lock, %d threads, %d attempts each, way of locking %d (0 spin_lock, 1 spin_lock with time-out until taken, 2 try_acquire until taken, 3 compare_exchange, 4 exchange, 5 spin_lock with time-out once, 6 try_acquire once, 7 mixed)", unity ? "single-file C++" : "library", WN[width], T, per, mix);
    together(T, [&](int t) { long b = 0; got[t] = k->lock(width, &lock, &s, ops[t].data(), ops[t].size(), &b); bad[t] = b; });
    long total = 0; for (int t = 0; t < T; t++) { total += got[t]; REQUIRE(!bad[t], "thread %d saw the protected data half changed %ld times, or a lock without time-out refused", t, bad[t]); }
    REQUIRE(s.a == total && s.b == total && s.c == total && s.d == total, "the lock was taken %ld times but the protected counters ended at %ld, %ld, %ld, %ld", total, s.a, s.b, s.c, s.d);
    REQUIRE(total >= must, "%ld acquisitions, at least %ld must have succeeded", total, must);
    REQUIRE(k->one(width, &lock, 5, 0, 0) == 0, "the lock word is %lld after everyone released it", (long long)k->one(width, &lock, 5, 0, 0));
    if (mix == 5 || mix == 6) REQUIRE(total > 0, "nobody ever got a free lock");
    if (total >= 10) g.nontrivial();
}
PROPERTY(short_sections, 3000, 60000, "at least two threads entered the section at least a hundred times in all", 1) {
    int unity = g.chance(2, 3), width = (int)g.u(3), T = 2 + (int)g.u(3), shape = (int)g.u(8), spin = g.boolean() ? 0 : (int)g.u(30); const KApi *k = api(unity); long per = 100 + (long)g.size(4000);
    static KBoth both; memset(&both, 0, sizeof both); KShared &s = both.s; k->one(width, &both.lock, 6, 0, 0); std::vector<long> got((size_t)T), bad((size_t)T);
    together(T, [&](int t) { long b = 0; got[t] = k->section(width, &both, shape, per, spin, &b); bad[t] = b; });
    long total = 0; for (int t = 0; t < T; t++) total += got[t];
    long want = 0; for (long i = 0; i < total; i++) want = k_step(want);
    REQUIRE(s.a == want && s.d == total, "%s build, atomic%s: the lock was taken %ld times by %d threads but the plain data it protects was updated as if it had been fewer times (%d, %ld) (shape %d: taken by %s, released by %s)", unity ? "single-file C++" : "library", WN[width], total, T, s.a == want, s.d, shape, shape < 2 ? "try_acquire_lock" : shape < 4 ? "compare_exchange" : shape < 6 ? "exchange" : "spin_lock", shape & 1 ? "store" : "spin_unlock");
    if (total >= 100) g.nontrivial();
}
PROPERTY(held_lock_refuses, 1500, 10000, "a held lock was tried by at least two threads", 1) {
    int unity = g.boolean(), width = (int)g.u(3), T = 1 + (int)g.u(4); const KApi *k = api(unity); static KWord lock; k->one(width, &lock, 6, 0, 0);
    bool how = g.boolean(); int ok = how ? k->spin_lock(width, &lock, g.boolean() ? -1 : (i64)g.u(3)) : k->try_acquire(width, &lock); REQUIRE(ok, "a free lock was refused");
    std::vector<long> won((size_t)T); std::vector<i64> to; for (int t = 0; t < T; t++) to.push_back((i64)g.u(300));
    together(T, [&](int t) { for (int i = 0; i < 20; i++) { won[t] += k->spin_lock(width, &lock, to[t]) != 0; won[t] += k->try_acquire(width, &lock) != 0; } });
    for (int t = 0; t < T; t++) REQUIRE(won[t] == 0, "thread %d took a lock (time-out %lld) that another thread held, %ld times", t, (long long)to[t], won[t]);
    k->unlock(width, &lock);
    std::atomic<int> wins{0}; together(T, [&](int t) { if (t & 1 ? k->try_acquire(width, &lock) : k->spin_lock(width, &lock, to[t])) wins++; });
    REQUIRE(wins == 1, "%d of %d threads took one free lock that nobody released", wins.load(), T);
    if (T >= 2) g.nontrivial();
}
PROPERTY(token_passes_data, 4000, 12000, "at least two threads passed the token at least ten times", 1) {
    int unity = g.boolean(), width = (int)g.u(3), T = 2 + (int)g.u(3), style = (int)g.u(4) | (g.boolean() ? 8 : 0); const KApi *k = api(unity); long rounds = 1 + (long)g.size(200); int spin = g.chance(1, 2) ? 41 : (int)g.u(30);
    static KWord tok; static KShared s; memset(&s, 0, sizeof s); k->one(width, &tok, 6, 0, 0); std::vector<long> bad((size_t)T);
    together(T, [&](int t) { long b = 0; k->token(width, &tok, &s, t, T, rounds, style, T > 2 ? 41 : spin, &b); bad[t] = b; });
    for (int t = 0; t < T; t++) REQUIRE(!bad[t], "thread %d received the token but not the data written before it, %ld times (passing style %d)", t, bad[t], style);
    REQUIRE(s.a == rounds * T && s.d == rounds * T, "the data ended at %ld, %ld after %ld passes", s.a, s.d, rounds * T);
    if (rounds * T >= 10) g.nontrivial();
}
PROPERTY(no_tearing, 1500, 10000, "at least two threads", 1) {
    int unity = g.boolean(), width = (int)g.u(3), T = 2 + (int)g.u(4); const KApi *k = api(unity); int per = 50 + (int)g.size(2000); u64 seed = g.u64any(); static KWord w; k->one(width, &w, 6, 0, 0);
    std::vector<std::vector<KOp>> ops((size_t)T); std::vector<long> bad((size_t)T);
    for (int t = 0; t < T; t++) for (int i = 0; i < per; i++) { KOp o; memset(&o, 0, sizeof o); u64 r = splitmix(seed); o.kind = (int)(r % 3); o.a = (i64)splitmix(seed); ops[t].push_back(o); }
    together(T, [&](int t) { long b = 0; k->store(width, &w, ops[t].data(), ops[t].size(), &b); bad[t] = b; });
    for (int t = 0; t < T; t++) REQUIRE(!bad[t], "thread %d loaded a value that nobody stored (a mix of two), %ld times", t, bad[t]);
    g.nontrivial();
}
