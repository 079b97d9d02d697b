// W01: clock readings are consistent with the system clock
// @fuzz-quick 0
// @fuzz-thorough 0
// @assume the system's clocks (clock_gettime, gettimeofday, time, nanosleep, clock_nanosleep, usleep) are replaced by simulated ones in all properties but real_clock and real_sleep; the simulated real-time clock stays between 1970 and 2200
#include "zh.hpp"
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <time.h>
#include <pthread.h>
#include <errno.h>
// ---- the simulated clocks: monotonic and real time in ns, each reading advances both by a generated step
static const i64 NS = 1000000000;
static bool fake; static i64 mono_ns, real_ns; static u64 step_seed, step_max; static i64 last_mono, last_real, first_real; static long readings, sleeps; static i64 slept_ns; static u64 sleep_seed; static int sleep_kind; static bool bad_sleep; static void (*hook)();
static void advance(i64 d) { mono_ns += d; real_ns += d; }
static void tick() { if (hook) hook(); if (step_max) advance((i64)(splitmix(step_seed) % (step_max + 1))); readings++; last_mono = mono_ns; last_real = real_ns; if (readings == 1) first_real = real_ns; }
static bool is_real(clockid_t id) { return id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI; }
extern "C" int clock_gettime(clockid_t id, struct timespec *t) noexcept {
    if (!fake) return (int)syscall(SYS_clock_gettime, id, t);
    tick(); i64 v = is_real(id) ? real_ns : mono_ns; t->tv_sec = v / NS; t->tv_nsec = v % NS; return 0;
}
extern "C" int gettimeofday(struct timeval *tv, void *tz) noexcept { if (!fake) return (int)syscall(SYS_gettimeofday, tv, tz); tick(); tv->tv_sec = real_ns / NS; tv->tv_usec = real_ns % NS / 1000; return 0; }
extern "C" time_t time(time_t *p) noexcept { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
// a sleep of d ns: complete, or interrupted by a signal after a part of it
static int do_sleep(i64 d, struct timespec *rem) {
    if (hook) hook(); sleeps++; u64 r = splitmix(sleep_seed); bool cut = false; i64 part = d;
    if (sleep_kind && sleeps < 40) switch (sleep_kind) { case 1: cut = sleeps == 1; break; case 2: cut = r % 2; break; default: cut = r % 8 != 0; }
    if (cut && d > 0) part = (r >> 8) % 4 == 0 ? 0 : (i64)(splitmix(sleep_seed) % (u64)d); else cut = false;
    advance(part); slept_ns += part; if (!cut) { advance((i64)(splitmix(sleep_seed) % 100000)); return 0; }
    if (rem) { rem->tv_sec = (d - part) / NS; rem->tv_nsec = (d - part) % NS; } return EINTR;
}
static bool valid(const struct timespec *t) { if (t->tv_nsec >= 0 && t->tv_nsec < NS && t->tv_sec >= 0) return true; bad_sleep = true; return false; }
extern "C" int nanosleep(const struct timespec *req, struct timespec *rem) {
    if (!fake) { int r = (int)syscall(SYS_nanosleep, req, rem); return r; }
    if (!valid(req)) { errno = EINVAL; return -1; } int e = do_sleep(req->tv_sec * NS + req->tv_nsec, rem); if (e) { errno = e; return -1; } return 0;
}
extern "C" int clock_nanosleep(clockid_t id, int flags, const struct timespec *req, struct timespec *rem) {
    if (!fake) { long r = syscall(SYS_clock_nanosleep, id, flags, req, rem); return r == -1 ? errno : 0; }
    if (!valid(req)) return EINVAL; i64 d = req->tv_sec * NS + req->tv_nsec; if (flags & TIMER_ABSTIME) { d -= is_real(id) ? real_ns : mono_ns; if (d < 0) d = 0; rem = nullptr; } return do_sleep(d, rem);
}
extern "C" int usleep(useconds_t us) { struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&t, nullptr); }
struct Fake { Fake() { fake = true; readings = sleeps = 0; slept_ns = 0; bad_sleep = false; hook = nullptr; } ~Fake() { fake = false; } };
static void steps(Gen &g) { step_seed = g.u(1u << 30); static const u64 m[] = {0, 0, 100, 2000000, 5000000000ull, 90000000000000ull}; step_max = m[g.u(6)]; }
static const u64 EPOCH = 11644473600000ull;   // ms from 1601-01-01 to 1970-01-01: 369 years with 89 leap days
static_assert(EPOCH == (369ull * 365 + 89) * 86400000ull, "");

static i64 instant(Gen &g) { i64 s; switch (g.u(6)) { case 0: s = (i64)g.u(4200000000ull); break; case 1: s = (i64)g.u(100000); break; case 2: s = 1600000000 + (i64)g.u(300000000); break; case 3: s = 2147483648ll + g.range(-100000, 100000); break; case 4: s = (i64)g.u(7000000000ull); break; default: s = 4294967296ll + g.range(-100000, 100000); }
    i64 n; switch (g.u(5)) { case 0: n = 0; break; case 1: n = (i64)g.u(NS); break; case 2: n = (i64)g.u(1000) * 1000000; break; case 3: n = (i64)g.u(1000) * 1000000 + 999999 - (i64)g.u(200); break; default: n = NS - 1 - (i64)g.u(2000000); } return s * NS + n; }

PROPERTY(absolute, 60000, 2000000, "a moving clock or a fraction of a millisecond") {
    i64 t0 = instant(g); real_ns = t0; mono_ns = (i64)g.u(1ull << 40); steps(g); u64 ms; double sec; { Fake f; ms = zpl_time_utc_ms(); }
    g.note("real-time clock %lld.%09lld s, read as %llu ms", (long long)(t0 / NS), (long long)(t0 % NS), (unsigned long long)ms);
    auto ok = [&](u64 got, i64 lo, i64 hi) { i64 u = (i64)(got - EPOCH); return u >= lo / 1000000 && u <= hi / 1000000 + (hi % 1000000 != 0); };
    REQUIRE(ok(ms, t0, real_ns), "utc_ms is %llu, that is UNIX time %lld ms; the system clock went from %lld to %lld ns", (unsigned long long)ms, (long long)(ms - EPOCH), (long long)t0, (long long)real_ns);
    REQUIRE(zpl_time_unix_to_win32((u64)(t0 / 1000000)) == (u64)(t0 / 1000000) + EPOCH, "unix_to_win32(%lld) is %llu", (long long)(t0 / 1000000), (unsigned long long)zpl_time_unix_to_win32((u64)(t0 / 1000000)));
    // seconds: with a clock that stands still they are the same reading
    step_max = 0; real_ns = t0; bool old = g.chance(1, 4); { Fake f; ms = zpl_time_utc_ms(); sec = old ? zpl_utc_time_now() : zpl_time_utc(); } double want = (double)ms / 1000;
    REQUIRE(fabs(sec - want) <= 1e-5, "at %llu ms the reading in seconds is %.6f", (unsigned long long)ms, sec);
    if (step_max || t0 % 1000000) g.nontrivial();
}
PROPERTY(conversions, 60000, 2000000, "always") {
    u64 x = g.u64any(); g.note("%llu", (unsigned long long)x); u64 w = zpl_time_unix_to_win32(x), b = zpl_time_win32_to_unix(x);
    REQUIRE(w - x == EPOCH, "unix_to_win32 moves %llu by %llu", (unsigned long long)x, (unsigned long long)(w - x)); REQUIRE(x - b == EPOCH, "win32_to_unix moves %llu by %llu", (unsigned long long)x, (unsigned long long)(x - b));
    REQUIRE(zpl_time_win32_to_unix(w) == x && zpl_time_unix_to_win32(b) == x, "the two conversions of %llu do not undo each other", (unsigned long long)x); g.nontrivial();
}
// ---- local time
static const char *zones[] = {"UTC", "Europe/Prague", "Europe/London", "Europe/Dublin", "America/New_York", "America/St_Johns", "America/Sao_Paulo", "America/Caracas", "Asia/Kolkata", "Asia/Kathmandu", "Asia/Tokyo", "Asia/Pyongyang", "Asia/Tehran", "Asia/Gaza", "Australia/Lord_Howe", "Australia/Adelaide", "Australia/Eucla", "Pacific/Apia", "Pacific/Kiritimati", "Pacific/Chatham", "Pacific/Marquesas", "Africa/Casablanca", "Africa/Monrovia", "Antarctica/Troll", "America/Nuuk", "Europe/Moscow", "Europe/Istanbul", "Asia/Hong_Kong", "America/Argentina/San_Luis", "Pacific/Pago_Pago"};
static std::string offs(Gen &g, int &secs) { static const int step[] = {3600, 1800, 900, 60}; int st = step[g.u(4)]; secs = (int)g.range(-(14 * 3600 / st), 14 * 3600 / st) * st; int a = abs(secs); char b[32]; snprintf(b, sizeof b, "%s%d:%02d", secs >= 0 ? "-" : "", a / 3600, a / 60 % 60); return b; }
static std::string zone(Gen &g, bool &fixed, int &secs) {
    fixed = false; switch (g.u(4)) { case 0: fixed = true; return "AAA" + offs(g, secs); case 1: { std::string s = "AAA" + offs(g, secs) + "BBB"; int dst = secs + (g.boolean() ? 3600 : (int)g.range(-2, 4) * 1800); char b[64]; int a = abs(dst); snprintf(b, sizeof b, "%s%d:%02d", dst >= 0 ? "-" : "", a / 3600, a / 60 % 60); s += b; if (g.boolean()) { snprintf(b, sizeof b, ",M%d.%d.0/%d,M%d.%d.0/%d", 1 + (int)g.u(6), 1 + (int)g.u(5), (int)g.u(24), 7 + (int)g.u(6), 1 + (int)g.u(5), (int)g.u(24)); s += b; } else { snprintf(b, sizeof b, ",M%d.1.0,M%d.5.0", 7 + (int)g.u(6), 1 + (int)g.u(6)); s += b; } return s; }
    default: return zones[g.u(sizeof zones / sizeof *zones)]; }
}
static i64 field_time(const struct tm &t) { // seconds since 1970 of a broken-down time read as if it were UTC
    i64 y = t.tm_year + 1900, m = t.tm_mon + 1; y -= m <= 2; i64 era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + t.tm_mday - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return (era * 146097 + doe - 719468) * 86400 + t.tm_hour * 3600 + t.tm_min * 60 + t.tm_sec; }
static i64 offset_at(time_t s) { struct tm t; localtime_r(&s, &t); return field_time(t) - (i64)s; }
PROPERTY(local, 60000, 1500000, "the zone is not at a constant offset and the instant is within two days of a change of offset") {
    bool fixed; int secs = 0; std::string z = zone(g, fixed, secs); setenv("TZ", z.c_str(), 1); tzset(); i64 t0 = instant(g); time_t s = (time_t)(t0 / NS); bool near = false;
    if (!fixed && g.chance(2, 3)) { // move next to a change of the offset, if one comes within a year and a half
        time_t a = s, b = s; i64 o = offset_at(s); for (int d = 0; d < 550 && offset_at(b) == o; d += 7) { a = b; b += 7 * 86400; } if (offset_at(b) != o) { while (b - a > 1) { time_t m = a + (b - a) / 2; (offset_at(m) == o ? a : b) = m; } near = true; s = b + (time_t)(g.boolean() ? g.range(-8000, 8000) : g.range(-2, 2)); if (s < 0) s = 0; t0 = (i64)s * NS + t0 % NS; } }
    real_ns = t0; mono_ns = 5 * NS; steps(g); if (step_max > 5000000) step_max = 5000000; u64 ms; { Fake f; ms = zpl_time_tz_ms(); } g.note("TZ=%s, UNIX time %lld.%09lld: local reading %llu", z.c_str(), (long long)(t0 / NS), (long long)(t0 % NS), (unsigned long long)ms);
    bool hit = false; i64 lo = t0 / 1000000, hi = real_ns / 1000000 + 1, got = (i64)(ms - EPOCH); for (i64 sec = lo / 1000; sec <= hi / 1000 && !hit; sec++) { i64 o = fixed ? secs : offset_at((time_t)sec); hit = got - o * 1000 >= std::max(lo, sec * 1000) && got - o * 1000 <= std::min(hi, sec * 1000 + 999); }
    { struct tm t; time_t q = (time_t)(t0 / NS); localtime_r(&q, &t); REQUIRE(hit, "in TZ=%s at UNIX time %lld ms local time is %04d-%02d-%02d %02d:%02d:%02d (offset %lld s), but tz_ms gives UNIX-epoch %lld ms, that is an offset of about %lld s", z.c_str(), (long long)lo, t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, (long long)offset_at(q), (long long)got, (long long)((got - lo) / 1000)); }
    step_max = 0; real_ns = t0; double sec; { Fake f; ms = zpl_time_tz_ms(); sec = zpl_time_tz(); } REQUIRE(fabs(sec - (double)ms / 1000) <= 1e-5, "at %llu ms the local reading in seconds is %.6f", (unsigned long long)ms, sec);
    if (near) g.nontrivial(); g.label(fixed ? "fixed offset" : strchr(z.c_str(), ',') ? "rule" : "tz database");
}
// ---- relative time, from the first reading of a fresh process on, by one or more threads in a generated schedule
struct Reading { int thread, kind; i64 before, after; u64 order_start, order_end; double value; };
struct Shared { int n, failed; Reading r[256]; };
static Shared *sh; static int n_threads; static std::vector<unsigned char> sched; static size_t sched_i; static int turn; static bool alive[4]; static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER; static thread_local int me = -1; static u64 order;
static void next_turn() { int live = 0; for (bool a : alive) live += a; if (!live) return; int k = (sched_i < sched.size() ? sched[sched_i++] : 0) % live; for (int i = 0; i < 4; i++) if (alive[i] && k-- == 0) { turn = i; break; } pthread_cond_broadcast(&cv); }
static void wait_turn() { while (turn != me) pthread_cond_wait(&cv, &mu); }
static void yield_hook() { if (me < 0) return; next_turn(); wait_turn(); }   // the lock is held by the running thread, so exactly one runs at a time
struct Plan { int id; std::vector<unsigned char> kinds; };
static void *reader(void *p) {
    Plan *pl = (Plan *)p; me = pl->id; pthread_mutex_lock(&mu); wait_turn();
    for (auto k : pl->kinds) { Reading r; r.thread = me; r.kind = k; r.before = mono_ns; r.order_start = ++order; switch (k) { case 0: r.value = (double)zpl_time_rel_ms(); break; case 1: r.value = zpl_time_rel() * 1000; break; default: r.value = zpl_time_now() * 1000; } r.after = mono_ns; r.order_end = ++order; if (sh->n < 256) sh->r[sh->n++] = r; yield_hook(); }
    alive[me] = false; next_turn(); pthread_mutex_unlock(&mu); return nullptr;
}
PROPERTY(relative, 6000, 60000, "at least two threads, or five readings over more than a second") {
    if (!sh) sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    n_threads = g.chance(1, 2) ? 1 : 2 + (int)g.u(3); Plan plans[4]; size_t total = 0; for (int i = 0; i < n_threads; i++) { plans[i].id = i; plans[i].kinds.resize(1 + g.size(n_threads == 1 ? 30 : 6)); for (auto &k : plans[i].kinds) k = (unsigned char)(g.chance(2, 3) ? 0 : 1 + g.u(2)); total += plans[i].kinds.size(); }
    sched.clear(); if (n_threads > 1) { size_t m = total * 4; sched.resize(m); for (auto &c : sched) c = (unsigned char)g.u(4); } steps(g); i64 s0 = g.chance(1, 3) ? (i64)g.u(3 * NS) : (i64)g.u(1ull << 55); mono_ns = s0; real_ns = instant(g); g.note("%d threads, clock starts at %lld ns, steps up to %llu ns", n_threads, (long long)s0, (unsigned long long)step_max);
    sh->n = sh->failed = 0; pid_t pid = fork(); REQUIRE(pid >= 0, "fork failed");
    if (!pid) {
        fake = true; readings = 0; hook = n_threads > 1 ? yield_hook : nullptr; sched_i = 1; order = 0; for (int i = 0; i < 4; i++) alive[i] = i < n_threads; turn = n_threads > 1 ? sched.empty() ? 0 : sched[0] % n_threads : 0; pthread_t th[4];
        for (int i = 0; i < n_threads; i++) pthread_create(&th[i], nullptr, reader, &plans[i]); for (int i = 0; i < n_threads; i++) pthread_join(th[i], nullptr); _exit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the reading process ended with status %d", st);
    REQUIRE(sh->n == (int)std::min<size_t>(total, 256), "%d of %zu readings were made", sh->n, total); double eps = 1e-3;
    for (int i = 0; i < sh->n; i++) { Reading &r = sh->r[i];
        REQUIRE(r.value >= 0 && r.value <= (double)(r.after - s0) / 1e6 + 1 + eps, "reading %d by thread %d is %.3f ms, only %.6f ms after the process's first reading of the clock could have been made", i, r.thread, r.value, (double)(r.after - s0) / 1e6);
        for (int j = 0; j < i; j++) { Reading &q = sh->r[j]; if (q.order_end < r.order_start) { REQUIRE(r.value + eps >= q.value, "reading %d (thread %d) is %.3f ms, an earlier one (%d, thread %d) was %.3f ms", i, r.thread, r.value, j, q.thread, q.value);
            // a difference of two readings is the time between them
            double d = r.value - q.value, lo = (double)(r.before - q.after) / 1e6 - 1 - eps, hi = (double)(r.after - q.before) / 1e6 + 1 + eps; REQUIRE(d >= lo && d <= hi, "readings %d and %d differ by %.3f ms, the clock moved by between %.3f and %.3f ms", j, i, d, lo + 1, hi - 1); } } }
    if (n_threads > 1 || (sh->n >= 5 && step_max > 1000000000)) g.nontrivial(); g.label(n_threads > 1 ? "several threads" : "one thread");
}
// ---- sleeping, on the simulated clock (interrupted by simulated signals)
PROPERTY(sleep, 60000, 2000000, "a signal interrupts the sleep") {
    mono_ns = (i64)g.u(1ull << 40); real_ns = instant(g); sleep_seed = g.u(1u << 30); sleep_kind = (int)g.u(4); step_seed = g.u(1u << 20); step_max = g.boolean() ? 0 : 1000; i64 m0 = mono_ns; double want; bool secs = g.chance(1, 3); zpl_u32 ms = 0; zpl_f32 s = 0;
    if (!secs) { switch (g.u(5)) { case 0: ms = (zpl_u32)g.u(50); break; case 1: ms = (zpl_u32)g.u(5000); break; case 2: ms = (zpl_u32)(g.u(4000) * 1000 + g.u(3)) - 1u * g.boolean(); if (ms > 4000000) ms = 999; break; case 3: ms = 0xffffffffu - (zpl_u32)g.u(2000); break; default: ms = (zpl_u32)g.u(1ull << 32); } want = (double)ms; }
    else { switch (g.u(4)) { case 0: s = (zpl_f32)g.u(5000) / 1000; break; case 1: s = (zpl_f32)g.u(100000) / 7777; break; case 2: s = (zpl_f32)g.u(4000000); break; default: s = (zpl_f32)ldexp((double)g.u(1 << 24), -(int)g.u(40)); if (s > 4000000) s = 1; } want = (double)s * 1000; }
    { Fake f; if (secs) zpl_sleep(s); else zpl_sleep_ms(ms); } double got = (double)(mono_ns - m0) / 1e6; g.note("%s %.9g ms, %ld sleeping calls, woke after %.9g ms", secs ? "sleep" : "sleep_ms", want, sleeps, got);
    REQUIRE(!bad_sleep, "a sleep of %.9g ms asked the system for an invalid duration", want);
    // seconds are single precision: the product with 1000 may round by half a unit in the last place
    double slack = secs ? want * 1.2e-7 : 0; REQUIRE(got + slack + 1e-9 >= want, "a sleep of %.9g ms ended after %.9g ms (%ld calls)", want, got, sleeps); if (sleeps > 1 || (sleep_kind && sleeps)) g.nontrivial();
}
// ---- the same on the real clock
static i64 now_ns(clockid_t id) { struct timespec t; syscall(SYS_clock_gettime, id, &t); return (i64)t.tv_sec * NS + t.tv_nsec; }
PROPERTY(real_clock, 3000, 60000, "always", 1) {
    static u64 last = 0; i64 a = now_ns(CLOCK_REALTIME); u64 ms = zpl_time_utc_ms(); i64 b = now_ns(CLOCK_REALTIME); double sec = zpl_time_utc(); i64 c = now_ns(CLOCK_REALTIME);
    if (c - a > 0 && c - a < 60 * NS) { i64 u = (i64)(ms - EPOCH); REQUIRE(u >= a / 1000000 && u <= b / 1000000 + 1, "utc_ms gives UNIX time %lld ms between readings of %lld and %lld ns", (long long)u, (long long)a, (long long)b); double us = sec - (double)EPOCH / 1000; REQUIRE(us >= (double)a / 1e9 - 0.002 && us <= (double)c / 1e9 + 0.002, "utc gives UNIX time %.6f between readings of %lld and %lld ns", us, (long long)a, (long long)c); }
    i64 m = now_ns(CLOCK_MONOTONIC); u64 r = zpl_time_rel_ms(); double rs = zpl_time_rel(); i64 m2 = now_ns(CLOCK_MONOTONIC); REQUIRE(r >= last, "relative time went from %llu to %llu ms", (unsigned long long)last, (unsigned long long)r); REQUIRE(rs * 1000 + 1e-3 >= (double)r && rs * 1000 <= (double)r + (double)(m2 - m) / 1e6 + 1.001, "relative time is %llu ms and right after it %.6f s", (unsigned long long)r, rs); last = r; (void)g.u(2); g.nontrivial();
}
static volatile sig_atomic_t signals_seen; static void on_usr1(int) { signals_seen = signals_seen + 1; }
PROPERTY(real_sleep, 120, 3000, "a signal arrived during the sleep", 1) {
    zpl_u32 ms = (zpl_u32)g.u(12); bool sig = g.chance(2, 3); long at = (long)g.u(6000) + 100; struct sigaction sa, oldsa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_usr1; sigaction(SIGUSR1, &sa, &oldsa); timer_t tm; struct sigevent ev; memset(&ev, 0, sizeof ev); ev.sigev_notify = SIGEV_SIGNAL; ev.sigev_signo = SIGUSR1; bool made = sig && timer_create(CLOCK_MONOTONIC, &ev, &tm) == 0; signals_seen = 0;
    if (made) { struct itimerspec it; memset(&it, 0, sizeof it); it.it_value.tv_nsec = at * 1000; it.it_interval.tv_nsec = g.boolean() ? at * 500 : 0; timer_settime(tm, 0, &it, nullptr); }
    i64 a = now_ns(CLOCK_MONOTONIC); zpl_sleep_ms(ms); i64 b = now_ns(CLOCK_MONOTONIC); int seen = signals_seen; if (made) timer_delete(tm); sigaction(SIGUSR1, &oldsa, nullptr); g.note("%u ms, %d signals", ms, seen ? 1 : 0);
    REQUIRE(b - a >= (i64)ms * 1000000, "a sleep of %u ms ended after %lld ns (%d signals arrived)", ms, (long long)(b - a), seen); if (seen) g.nontrivial();
}
