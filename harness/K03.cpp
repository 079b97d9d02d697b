// K03: every queued job runs exactly once and shutdown terminates
// @workers 3
// @cpu-limit 120
// @wall-limit 40
// @assume schedules are those the kernel and 8 cores produced during the run (oversubscribed, with generated pauses), not an enumeration; one thread drives the job system, as its documentation says
#include "treelib.hpp"
#include <sched.h>
#include <atomic>
#include <thread>
#include <dirent.h>
#include <deque>
static void pause_for(int k) { if (k > 60) usleep((useconds_t)(k - 60)); else if (k > 40) for (int i = 40; i < k; i++) sched_yield(); else for (int i = 0; i < k; i++) __asm__ volatile("pause"); }
static int gpause(Gen &g) { switch (g.u(5)) { case 0: case 1: return 0; case 2: return (int)g.u(40); case 3: return 41 + (int)g.u(8); default: return g.chance(1, 4) ? 61 + (int)g.u(80) : (int)g.u(60); } }
struct World;
struct Job { World *w; int id, prio, pause; std::atomic<int> started{0}, finished{0}; long input = 0, output = 0; };
struct World { std::atomic<int> running{0}, most{0}, started[5], over{0}; std::atomic<long> seq{0}; std::vector<int> order; pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; World() { for (auto &s : started) s = 0; } };
static void run_job(void *p) {
    Job *j = (Job *)p; World *w = j->w; if (j->started.fetch_add(1)) w->over++; w->started[j->prio]++; int k = w->running.fetch_add(1) + 1, m = w->most.load(); while (k > m && !w->most.compare_exchange_weak(m, k)) {}
    pthread_mutex_lock(&w->mu); w->order.push_back(j->id); pthread_mutex_unlock(&w->mu);
    pause_for(j->pause); j->output = j->input * 3 + 1; w->running--; j->finished++;
}
struct State { Meter meter; zpl_jobs_system pool; World w; std::deque<Job> jobs; State() { memset(&pool, 0xA5, sizeof pool); } };
static int task_count() { int n = 0; DIR *d = opendir("/proc/self/task"); if (!d) return -1; while (struct dirent *e = readdir(d)) n += e->d_name[0] != '.'; closedir(d); return n; }
static void settle_tasks(int want) { int n = 0; for (int i = 0; i < 20000; i++) { n = task_count(); if (n <= want) return; usleep(100); } REQUIRE(n <= want, "%d threads exist after the system was freed, %d before it was made", n, want); }
static Job *new_job(Gen &g, std::deque<Job> &jobs, World &w, int prio) { jobs.emplace_back(); Job *j = &jobs.back(); j->w = &w; j->id = (int)jobs.size() - 1; j->prio = prio; j->pause = gpause(g); j->input = (long)g.u(1000000) + j->id; return j; }

PROPERTY(history, 15000, 80000, "at least five jobs were accepted and two calls of process dispatched them", 1) {
    int W = 1 + (int)g.u(g.chance(1, 3) ? 8 : 3), before = task_count(); bool deflt = g.chance(1, 10); long cap = deflt ? ZPL_JOBS_MAX_QUEUE : 1 + (long)g.size(24); State *state = new State; Meter &meter = state->meter; zpl_jobs_system &pool = state->pool; World &w = state->w; std::deque<Job> &jobs = state->jobs;   // kept when the case fails: workers may still be using it
    if (deflt) zpl_jobs_init(&pool, meter_allocator(meter), (zpl_u32)W); else zpl_jobs_init_with_limit(&pool, meter_allocator(meter), (zpl_u32)W, (zpl_u32)cap);
    long accepted[5] = {0}, total = 0, refused = 0, calls = 0; std::vector<std::pair<Job *, bool>> all; bool quiet = true; bool every_prio = g.boolean();   // quiet: no call of process since everything accepted had run
    long queued[5] = {0};
    // per priority: while nothing was dispatched the queue length is known; otherwise it is between these bounds
    auto lo = [&](int p) { long l = accepted[p] - w.started[p].load() - W; return quiet ? queued[p] : l < 0 ? 0 : l; };
    auto hi = [&](int p) { return quiet ? queued[p] : accepted[p] - (long)w.started[p].load(); };
    auto query = [&] {
        bool all_empty = true, all_full = true, known = true;
        for (int p = 0; p < 5; p++) {
            long h = hi(p); bool e = zpl_jobs_empty(&pool, (zpl_jobs_priority)p) != 0, f = zpl_jobs_full(&pool, (zpl_jobs_priority)p) != 0; long l = lo(p);
            REQUIRE(e ? l <= 0 : h > 0, "jobs_empty(%d) says %d, %ld to %ld jobs wait there", p, e, l, h); REQUIRE(f ? h >= cap : l < cap, "jobs_full(%d) says %d, %ld to %ld jobs wait in a queue of %ld", p, f, l, h, cap); all_empty &= e; all_full &= f; (void)known;
        }
        REQUIRE((zpl_jobs_empty_all(&pool) != 0) == all_empty, "jobs_empty_all disagrees with the five queues"); REQUIRE((zpl_jobs_full_all(&pool) != 0) == all_full, "jobs_full_all disagrees with the five queues");
    };
    auto check_done = [&] { if (!zpl_jobs_done(&pool)) return false; for (auto &a : all) if (a.second) REQUIRE(a.first->finished == 1 && a.first->output == a.first->input * 3 + 1, "jobs_done says yes but job %d ran %d times", a.first->id, a.first->finished.load()); quiet = true; for (auto &q : queued) q = 0; return true; };
    REQUIRE(zpl_jobs_done(&pool) && zpl_jobs_empty_all(&pool), "a new job system is not done or not empty"); REQUIRE(!zpl_jobs_process(&pool), "process on an empty system says there was something to do");
    int n = 1 + (int)g.size(60);
    for (int i = 0; i < n; i++) switch (g.u(8)) {
        case 0: case 1: case 2: case 3: {
            int burst = g.chance(1, 6) ? (int)cap + 1 : 1 + (int)g.u(3), p = every_prio ? (int)g.u(5) : 2;
            for (int b = 0; b < burst; b++) { bool nrm = p == 2 && g.boolean(); Job *j = new_job(g, jobs, w, p); long l = lo(p), h0 = hi(p); (void)h0; bool full = zpl_jobs_full(&pool, (zpl_jobs_priority)p) != 0; if (quiet) REQUIRE(full == (l >= cap), "jobs_full(%d) says %d with %ld of %ld jobs waiting", p, full, l, cap);
                bool ok = (nrm ? zpl_jobs_enqueue(&pool, run_job, j) : zpl_jobs_enqueue_with_priority(&pool, run_job, j, (zpl_jobs_priority)p)) != 0; REQUIRE(ok == !full, "enqueue says %d, jobs_full said %d just before", ok, full); all.emplace_back(j, ok); if (ok) { accepted[p]++; total++; queued[p]++; } else refused++; }
        } break;
        case 4: case 5: { bool e = zpl_jobs_empty_all(&pool) != 0, r = zpl_jobs_process(&pool) != 0; REQUIRE(r == !e, "process says %d, jobs_empty_all said %d just before", r, e); if (r) { quiet = false; calls++; } } break;
        case 6: query(); pause_for(gpause(g)); break;
        default: if (g.chance(1, 3)) { while (!check_done()) { if (zpl_jobs_process(&pool)) calls++; else sched_yield(); quiet = false; } quiet = true; for (auto &q : queued) q = 0; query(); } else { if (!zpl_jobs_empty_all(&pool)) REQUIRE(!zpl_jobs_done(&pool), "jobs_done says yes while jobs wait"); else check_done(); }
    }
    while (zpl_jobs_process(&pool)) calls++;
    while (!zpl_jobs_done(&pool)) sched_yield();
    for (auto &a : all) REQUIRE(a.first->finished == (a.second ? 1 : 0), "job %d, which was %s, ran %d times", a.first->id, a.second ? "accepted" : "refused", a.first->finished.load());
    REQUIRE(w.most <= W, "%d jobs ran at once on %d workers", w.most.load(), W);
    if (W == 1) { int last[5] = {-1, -1, -1, -1, -1}; for (int id : w.order) { int p = jobs[(size_t)id].prio; REQUIRE(id > last[p], "job %d ran after job %d of the same priority, which was queued later", id, last[p]); last[p] = id; } }
    zpl_jobs_free(&pool); REQUIRE(meter.live == 0, "%ld blocks are still allocated after the system was freed", meter.live); settle_tasks(before);
    if (total >= 5 && calls >= 2) g.nontrivial(); if (refused) g.label("refused"); if (W > 1) g.label("several workers");
    delete state;
}
PROPERTY(shutdown, 40000, 150000, "the system was freed while jobs were queued, dispatched or running", 1) {
    int W = 1 + (int)g.u(g.chance(1, 3) ? 8 : 3), before = task_count(); long cap = 1 + (long)g.u(30); State *state = new State; Meter &meter = state->meter; zpl_jobs_system &pool = state->pool; World &w = state->w; std::deque<Job> &jobs = state->jobs;   // kept when the case fails: workers may still be using it
    zpl_jobs_init_with_limit(&pool, meter_allocator(meter), (zpl_u32)W, (zpl_u32)cap); int n = (int)g.u(12), calls = 0; std::vector<bool> ok; bool same = g.boolean();
    for (int i = 0; i < n; i++) { int p = same ? 0 : (int)g.u(5); Job *j = new_job(g, jobs, w, p); if (same) j->pause = 0; ok.push_back(zpl_jobs_enqueue_with_priority(&pool, run_job, j, (zpl_jobs_priority)p) != 0); for (unsigned c = g.u(3); c; c--) { zpl_jobs_process(&pool); calls++; } }
    pause_for(gpause(g)); bool busy = !zpl_jobs_done(&pool);
    zpl_jobs_free(&pool); std::vector<int> st; for (auto &j : jobs) { st.push_back(j.started); REQUIRE(j.finished == j.started, "the system was freed while job %d was still running", j.id); REQUIRE(j.started <= (ok[(size_t)j.id] ? 1 : 0), "job %d ran %d times", j.id, j.started.load()); }
    REQUIRE(meter.live == 0, "%ld blocks are still allocated after the system was freed", meter.live); settle_tasks(before);
    for (auto &j : jobs) REQUIRE(j.started == st[(size_t)j.id], "job %d ran after the system was freed", j.id);
    if (busy) g.nontrivial();
    delete state;
}
