// K02: mutexes, semaphores, threads and barriers synchronise
// @workers 4
// @cpu-limit 200
// @wall-limit 60
// @assume schedules are those the kernel and 8 cores produced during the run (oversubscribed, with generated pauses, yields and signals), not an enumeration; Linux (pthread) implementation only
#include "zh.hpp"
#include <sched.h>
#include <thread>
#include <atomic>
#include <alloca.h>
static void pause_for(int k) { if (k > 60) usleep((useconds_t)(k - 60)); else if (k > 40) for (int i = 40; i < k; i++) sched_yield(); else for (int i = 0; i < k; i++) __asm__ volatile("pause"); }
static int gpause(Gen &g) { switch (g.u(4)) { case 0: return 0; case 1: return (int)g.u(40); case 2: return 41 + (int)g.u(8); default: return g.chance(1, 4) ? 61 + (int)g.u(60) : (int)g.u(60); } }
template <class F> static void together(int n, F f) {
    std::atomic<int> ready{0}; std::vector<std::thread> ts;
    for (int i = 0; i < n; i++) ts.emplace_back([&, i] { ready++; while (ready.load() < n) sched_yield(); f(i); });
    for (auto &t : ts) t.join();
}
struct Plain { long a, b, c; };
PROPERTY(mutex_excludes, 8000, 50000, "at least two threads entered at least ten times in all", 1) {
    int T = 2 + (int)g.u(7), per = 1 + (int)g.size(300), mix = (int)g.u(3); static zpl_mutex m; memset(&m, 0xA5, sizeof m);
    REQUIRE(zpl_mutex_init(&m), "mutex_init reports failure"); static Plain p; p = Plain{0, 0, 0};
    std::vector<std::vector<std::pair<int, int>>> ops((size_t)T); u64 s = g.u64any(); int pm = gpause(g);
    for (auto &o : ops) for (int i = 0; i < per; i++) { u64 r = splitmix(s); o.emplace_back(mix == 0 ? 0 : mix == 1 ? 1 + (int)(r % 2) : (int)(r % 3), pm > 60 ? (r >> 8) % 40 ? 0 : pm : pm ? (int)((r >> 8) % (unsigned)pm) : 0); }
    std::atomic<int> inside{0}; std::vector<long> got((size_t)T), bad((size_t)T), refused((size_t)T);
    together(T, [&](int t) { for (auto &o : ops[t]) {
        bool in = true; if (o.first == 0) zpl_mutex_lock(&m); else if (o.first == 1) in = zpl_mutex_try_lock(&m) != 0; else while (!zpl_mutex_try_lock(&m)) sched_yield();
        if (!in) { refused[t]++; continue; }
        if (inside.fetch_add(1) != 0) bad[t]++;
        long a = p.a; if (p.b != a || p.c != a) bad[t]++; p.a = a + 1; pause_for(o.second); p.b = a + 1; p.c = a + 1; got[t]++;
        inside.fetch_sub(1); zpl_mutex_unlock(&m);
    } });
    long total = 0, ref = 0; for (int t = 0; t < T; t++) { total += got[t]; ref += refused[t]; REQUIRE(!bad[t], "thread %d was inside together with another thread %ld times (%d threads)", t, bad[t], T); }
    REQUIRE(p.a == total && p.c == total, "the mutex was taken %ld times but the counter it protects ended at %ld", total, p.a);
    REQUIRE(total + ref == (long)T * per, "%ld entries and %ld refusals for %ld attempts", total, ref, (long)T * per); REQUIRE(total > 0, "every try_lock was refused although nobody held the mutex");
    REQUIRE(zpl_mutex_try_lock(&m), "try_lock refuses a free mutex"); zpl_mutex_unlock(&m); REQUIRE(zpl_mutex_destroy(&m), "mutex_destroy reports failure for an unlocked mutex");
    if (total >= 10) g.nontrivial();
}
PROPERTY(try_lock_tells, 2000, 10000, "the mutex was tried by another thread while held and while free") {
    zpl_mutex m; REQUIRE(zpl_mutex_init(&m), "mutex_init reports failure"); int n = 1 + (int)g.size(12); bool held = false, th = false, tf = false;
    for (int i = 0; i < n; i++) {
        if (g.boolean()) { if (held) zpl_mutex_unlock(&m); else if (g.boolean()) zpl_mutex_lock(&m); else REQUIRE(zpl_mutex_try_lock(&m), "try_lock refuses a free mutex"); held = !held; }
        bool took = false; std::thread o([&] { took = zpl_mutex_try_lock(&m) != 0; if (took) zpl_mutex_unlock(&m); }); o.join();
        REQUIRE(took == !held, "try_lock from another thread said %s although the mutex was %s", took ? "taken" : "refused", held ? "held" : "free"); (held ? th : tf) = true;
    }
    if (held) zpl_mutex_unlock(&m); REQUIRE(zpl_mutex_destroy(&m), "mutex_destroy reports failure for an unlocked mutex"); if (th && tf) g.nontrivial();
}
static void on_usr(int) {}
// waits, tries and posts of several threads, with signals: nothing is lost and nothing appears from nowhere
PROPERTY(semaphore_counts, 8000, 40000, "at least two threads, ten releases and ten waits", 1) {
    int P = 1 + (int)g.u(4), C = 1 + (int)g.u(4); long released = 0; u64 s = g.u64any(); bool sig = g.chance(1, 3); int pm = gpause(g), per = 1 + (int)g.size(150);
    static zpl_semaphore sem; memset(&sem, 0xA5, sizeof sem); zpl_semaphore_init(&sem); REQUIRE(zpl_semaphore_trywait(&sem) != 0, "a new semaphore admits somebody");
    std::vector<std::vector<int>> posts((size_t)P); for (auto &v : posts) for (int i = 0; i < per; i++) { int c = (int)(splitmix(s) % 5); v.push_back(c); released += c < 2 ? 1 : c; }
    long extra = (long)g.u(6), waits = released > extra ? released - extra : 0; std::atomic<long> out{0}, in{0}, left{waits}, over{0}, odd{0}, consumers{C}; std::atomic<bool> stop{false};
    struct sigaction sa, old; memset(&sa, 0, sizeof sa); sa.sa_handler = on_usr; sigaction(SIGUSR1, &sa, &old); std::vector<std::thread> ts; std::vector<pthread_t> ids;
    for (int c = 0; c < C; c++) ts.emplace_back([&, c] { u64 r = (u64)c * 77 + s; while (left.fetch_sub(1) > 0) {
        if (splitmix(r) % 3 == 0) { int z; while ((z = zpl_semaphore_trywait(&sem)) != 0) { if (z != -1) odd++; sched_yield(); } } else zpl_semaphore_wait(&sem);
        long mine = out.fetch_add(1) + 1; if (mine > in.load()) over++; } consumers--; });
    if (sig) for (auto &t : ts) ids.push_back(t.native_handle());
    std::vector<std::thread> ps; for (int q = 0; q < P; q++) ps.emplace_back([&, q] { for (int c : posts[(size_t)q]) { in += c < 2 ? 1 : c; if (c == 0) zpl_semaphore_release(&sem); else zpl_semaphore_post(&sem, c); pause_for(pm); } });
    if (sig) while (consumers.load() > 0) { for (auto t : ids) pthread_kill(t, SIGUSR1); usleep(50); }
    for (auto &t : ps) t.join(); for (auto &t : ts) t.join(); sigaction(SIGUSR1, &old, 0);
    REQUIRE(over == 0, "a wait returned before enough releases: %ld times", over.load()); long rest = 0; while (zpl_semaphore_trywait(&sem) == 0) rest++;
    REQUIRE(rest == released - waits, "%ld released, %ld waited, but %ld more can enter", released, waits, rest); zpl_semaphore_destroy(&sem); if (released >= 10 && waits >= 10) g.nontrivial(); if (sig) g.label("signals");
}
PROPERTY(semaphore_admits, 3000, 15000, "more threads than permits", 1) {
    int T = 2 + (int)g.u(7), permits = 1 + (int)g.u((u64)T), per = 1 + (int)g.size(60), pm = gpause(g); static zpl_semaphore sem; zpl_semaphore_init(&sem); std::atomic<int> inside{0}, most{0};
    if (g.boolean()) zpl_semaphore_post(&sem, permits); else for (int i = 0; i < permits; i++) zpl_semaphore_release(&sem);
    together(T, [&](int) { for (int i = 0; i < per; i++) { zpl_semaphore_wait(&sem); int k = inside.fetch_add(1) + 1, m = most.load(); while (k > m && !most.compare_exchange_weak(m, k)) {} pause_for(pm); inside.fetch_sub(1); zpl_semaphore_release(&sem); } });
    REQUIRE(most <= permits, "%d threads were inside at once, the semaphore had %d permits", most.load(), permits); int rest = 0; while (zpl_semaphore_trywait(&sem) == 0) rest++; REQUIRE(rest == permits, "%d permits are left of %d", rest, permits); zpl_semaphore_destroy(&sem);
    if (T > permits) g.nontrivial();
}
struct TArg { std::atomic<int> state{0}; std::atomic<bool> go{true}; zpl_isize result; size_t stack; int pause; unsigned id, id2; void *seen; zpl_thread *self; long plain; };
static __attribute__((noinline)) void use_stack(size_t n) { volatile char *p = (volatile char *)alloca(n); for (size_t i = n - 1; i >= 1024; i -= 1024) p[i] = 1; p[0] = 2; }      /* from the near end, so that a stack that is too small meets its guard page */
static zpl_isize body(zpl_thread *t) {
    TArg *a = (TArg *)t->user_data; a->seen = t->user_data; a->self = t; a->id = zpl_thread_current_id(); a->state = 1; while (!a->go.load()) usleep(20);
    if (a->stack) use_stack(a->stack - 655360); pause_for(a->pause); a->plain++; a->id2 = zpl_thread_current_id(); a->state = 2; return a->result;
}
PROPERTY(threads_join, 1500, 30000, "at least two threads were alive at the same time", 1) {
    int T = 1 + (int)g.u(6), rounds = 1 + (int)g.u(3); std::vector<zpl_thread> th((size_t)T); std::vector<TArg> a((size_t)T); std::vector<int> nowait((size_t)T);
    for (int i = 0; i < T; i++) { memset(&th[i], 0xA5, sizeof(zpl_thread)); nowait[i] = g.boolean(); if (nowait[i]) zpl_thread_init_nowait(&th[i]); else zpl_thread_init(&th[i]); a[i].plain = 0; REQUIRE(!zpl_thread_is_running(&th[i]), "a thread that was not started is running"); }
    for (int r = 0; r < rounds; r++) {
        bool hold = g.boolean();
        for (int i = 0; i < T; i++) {
            if (g.chance(1, 6)) zpl_thread_set_name(&th[i], "worker"); a[i].state = 0; a[i].go = !hold; a[i].result = (zpl_isize)g.i64any(); a[i].pause = gpause(g); a[i].stack = g.chance(1, 3) ? (size_t)(g.boolean() ? 1048576 + g.u(4u << 20) : (10u << 20) + g.u(16u << 20)) : 0;
            REQUIRE(a[i].stack ? zpl_thread_start_with_stack(&th[i], body, &a[i], (zpl_isize)(a[i].stack &= ~(size_t)4095)) : zpl_thread_start(&th[i], body, &a[i]), "thread_start reports failure");
            if (hold && !nowait[i]) REQUIRE(zpl_thread_is_running(&th[i]), "thread_start returned but the thread, which cannot have finished, is not running");
        }
        if (hold) { for (auto &x : a) while (x.state.load() == 0) sched_yield(); std::set<unsigned> ids; for (auto &x : a) ids.insert(x.id); ids.insert(zpl_thread_current_id()); REQUIRE((int)ids.size() == T + 1, "%d threads alive at once have only %d different ids", T + 1, (int)ids.size());
            for (int i = 0; i < T; i++) REQUIRE(zpl_thread_is_running(&th[i]), "a thread inside its function is not running"); for (auto &x : a) x.go = true; if (T >= 2) g.nontrivial(); }
        std::vector<int> order; for (int i = 0; i < T; i++) order.push_back(i); for (int i = T - 1; i > 0; i--) std::swap(order[i], order[g.u((u64)i + 1)]);
        for (int i : order) {
            bool last = r == rounds - 1 && g.boolean(); if (last) zpl_thread_destroy(&th[i]); else zpl_thread_join(&th[i]);
            REQUIRE(a[i].state == 2 && a[i].plain == r + 1, "%s returned before the thread's function did (state %d)", last ? "thread_destroy" : "thread_join", a[i].state.load());
            REQUIRE(th[i].return_value == a[i].result, "the thread returned %lld, join left %lld", (long long)a[i].result, (long long)th[i].return_value); REQUIRE(!zpl_thread_is_running(&th[i]), "a joined thread is running");
            REQUIRE(a[i].seen == &a[i] && a[i].self == &th[i], "the thread function got other arguments than it was started with"); REQUIRE(a[i].id == a[i].id2, "the id of a thread changed while it ran");
            if (r == rounds - 1 && !last) zpl_thread_destroy(&th[i]);
        }
    }
}
PROPERTY(affinity, 2000, 20000, "always") {
    g.nontrivial(); zpl_affinity a[3]; memset(a, (int)g.u(256), sizeof a); zpl_affinity z = a[0]; zpl_affinity_init(&a[1]); REQUIRE(!memcmp(&a[0], &z, sizeof z) && !memcmp(&a[2], &z, sizeof z), "affinity_init wrote outside of its structure");
    long on = sysconf(_SC_NPROCESSORS_ONLN); REQUIRE(a[1].core_count >= 1 && a[1].thread_count >= a[1].core_count, "%ld cores with %ld threads", (long)a[1].core_count, (long)a[1].thread_count); if (on > 0) REQUIRE(a[1].is_accurate && a[1].thread_count == on, "the machine runs %ld processors, affinity_init says %ld (accurate %d)", on, (long)a[1].thread_count, a[1].is_accurate);
    zpl_isize sum = 0; for (zpl_isize c = 0; c < a[1].core_count; c++) { zpl_isize k = zpl_affinity_thread_count_for_core(&a[1], c); REQUIRE(k >= 1, "core %ld has %ld threads", (long)c, (long)k); sum += k; } REQUIRE(sum == a[1].thread_count, "the cores have %ld threads in all, the machine %ld", (long)sum, (long)a[1].thread_count); zpl_affinity_destroy(&a[1]);
}
PROPERTY(start_failure, 60, 600, "the thread could not be created") {
    zpl_thread t; TArg a; a.result = 1; a.pause = 0; a.stack = 0; a.plain = 0; bool nowait = g.boolean(); if (nowait) zpl_thread_init_nowait(&t); else zpl_thread_init(&t);
    zpl_isize sz = (zpl_isize)1 << (47 + g.u(15));
    bool ok = zpl_thread_start_with_stack(&t, body, &a, sz) != 0;
    if (!ok) { g.nontrivial(); REQUIRE(!zpl_thread_is_running(&t) && a.state == 0, "thread_start reports failure but the thread runs"); if (g.boolean()) { REQUIRE(zpl_thread_start(&t, body, &a), "a thread cannot be started after a failed attempt"); zpl_thread_join(&t); REQUIRE(a.state == 2, "join returned before the thread finished"); } }
    else { zpl_thread_join(&t); REQUIRE(a.state == 2, "thread_start said a thread with a stack of %lld bytes was started but it never ran", (long long)sz); }
    zpl_thread_destroy(&t);
}
PROPERTY(barrier, 8000, 30000, "at least three threads and two rounds", 1) {
    int T = 1 + (int)g.u(8), R = 1 + (int)g.u(12); static zpl_sync s; memset(&s, 0xA5, sizeof s); zpl_sync_init(&s); struct Round { int target; std::vector<int> how, pause; }; std::vector<Round> rs((size_t)R);
    for (auto &r : rs) { r.target = 0; int style = (int)g.u(4); for (int t = 0; t < T; t++) { int h = style == 0 ? 2 : style == 1 ? 1 : (int)g.u(3); r.how.push_back(h); r.target += h != 0; r.pause.push_back(gpause(g)); } if (!r.target) { r.how[0] = 2; r.target = 1; } }
    std::vector<std::atomic<int>> arrived((size_t)R), left((size_t)R); for (auto &x : arrived) x = 0; for (auto &x : left) x = 0; std::atomic<int> open{-1}, early{0}, ready{0}; std::vector<std::vector<int>> nums((size_t)R, std::vector<int>((size_t)T, 0)); std::vector<long> plain((size_t)T, 0); std::atomic<int> unseen{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < T; t++) ts.emplace_back([&, t] { for (int r = 0; r < R; r++) {
        if (!rs[r].how[t]) continue; while (open.load() < r) sched_yield(); pause_for(rs[r].pause[t]); plain[t]++; arrived[r]++;
        if (rs[r].how[t] == 1) nums[r][t] = zpl_sync_reach(&s); else { zpl_sync_reach_and_wait(&s); if (arrived[r].load() != rs[r].target) early++; }
        left[r]++; } });
    int bad = -1; bool own = g.boolean();
    for (int r = 0; r < R; r++) {
        zpl_sync_set_target(&s, rs[r].target); if (r && arrived[r - 1].load() != rs[r - 1].target && bad < 0) bad = r; open = r;
        if (own) while (left[r].load() < rs[r].target) sched_yield();
    }
    for (auto &t : ts) t.join();
    REQUIRE(early == 0, "a thread left the barrier before the target number had arrived: %d times in %d rounds of %d threads", early.load(), R, T); REQUIRE(bad < 0, "set_target for round %d returned while round %d was still incomplete", bad, bad - 1);
    for (int r = 0; r < R; r++) { std::set<int> seen; for (int t = 0; t < T; t++) if (rs[r].how[t] == 1) { int k = nums[r][t]; REQUIRE(k >= 1 && k <= rs[r].target, "reach returned %d of %d", k, rs[r].target); REQUIRE(seen.insert(k).second, "reach returned %d twice in one round", k); } }
    zpl_sync_set_target(&s, 1); REQUIRE(zpl_sync_reach(&s) == 1, "the barrier is not reusable"); zpl_sync_destroy(&s);
    if (T >= 3 && R >= 2) g.nontrivial();
}
