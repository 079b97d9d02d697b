#include <mutex>
#include <netdb.h>
#include "pbt.hpp"
#include <dirent.h>
#include <ftw.h>
namespace pbt {
std::vector<Sub> &subs() { static std::vector<Sub> v; return v; }
std::vector<Known> &knowns() { static std::vector<Known> v; return v; }

static const size_t CAP = 1u << 17;
struct Slot { volatile size_t n; volatile u64 idx; volatile u64 done; volatile int active; u64 buf[CAP]; };
static std::set<std::string> g_known;
static std::string g_scratch;
const std::string &scratch() {
    static pid_t owner = 0; static std::string dir;
    if (owner != getpid()) {
        owner = getpid();
        char t[64]; snprintf(t, sizeof t, "/p%d", (int)owner);
        if (g_scratch.empty()) { const char *e = getenv("PBT_SCRATCH"); g_scratch = e ? e : "/tmp"; }
        dir = g_scratch + t;
        mkdir(dir.c_str(), 0700);
    }
    return dir;
}
static int rm_cb(const char *p, const struct stat *, int, struct FTW *) { remove(p); return 0; }
static void rm_rf(const std::string &d) {           // only ever called on our own scratch directories
    if (d.size() < 8 || d.find("..") != std::string::npos) return;
    nftw(d.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS);
}

static void on_alarm(int) { static const char m[] = "PBT: case exceeded its time limit (hang)\n"; (void)!write(2, m, sizeof m - 1); _exit(EXIT_HANG); }
static int g_cpu_limit = 20, g_wall_limit = 120;
static void arm() {
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = g_cpu_limit; setitimer(ITIMER_PROF, &it, 0);
    it.it_value.tv_sec = g_wall_limit; setitimer(ITIMER_REAL, &it, 0);
}
static void disarm() { struct itimerval it; memset(&it, 0, sizeof it); setitimer(ITIMER_PROF, &it, 0); setitimer(ITIMER_REAL, &it, 0); }
static void handlers() { signal(SIGPROF, on_alarm); signal(SIGALRM, on_alarm); signal(SIGPIPE, SIG_IGN); }

static void init_gen(Gen &g, u64 *buf, volatile size_t *np) {
    g.buf = buf; g.cap = CAP; g.np = np; g.n = 0; *np = 0; g.mode = 0; g.rs = 0; g.rep = 0; g.rn = 0;
    g.fz = 0; g.fzn = g.fzp = 0; g.verbose = false; g.is_nt = false; g.overrun = false; g.known_ids = &g_known; g.labels = 0;
}
static u64 hash_choices(const u64 *b, size_t n) { u64 h = n; for (size_t i = 0; i < n; i++) h = mix(h, b[i]); return h; }
static u64 hash_name(const char *s) { u64 h = 1469598103934665603ull; while (*s) h = (h ^ (unsigned char)*s++) * 1099511628211ull; return h; }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// blocks of memory the library has taken and not given back (see heap_live.h)
static std::mutex &live_mutex() { static std::mutex *m = new std::mutex; return *m; }
static std::unordered_set<void *> &live_set() { static std::unordered_set<void *> *s = new std::unordered_set<void *>; return *s; }
static long live_blocks() { std::lock_guard<std::mutex> l(live_mutex()); return (long)live_set().size(); }

// run one case in this process; 0 pass, 1 fail(msg), 2 discard
static int run_once(Gen &g, const Sub &s, std::string &msg) {
    try { s.fn(g); return 0; }
    catch (Fail &f) { msg = f.msg; return 1; }
    catch (Discard &) { return 2; }
    catch (std::exception &e) { msg = std::string("the check could not handle the result: ") + e.what(); return 1; }
}
// ... and what it leaves allocated: a case that passes, and keeps memory each time it is repeated, leaks
static int run_case(Gen &g, const Sub &s, std::string &msg) {
    long before = live_blocks(); int r = run_once(g, s, msg); if (r != 0 || live_blocks() <= before) return r;
    std::vector<u64> ch(g.buf, g.buf + g.n); long kept = 0;
    for (int t = 0; t < 3; t++) {
        Gen h = g; h.mode = 1; h.rep = ch.data(); h.rn = ch.size(); h.n = 0; h.verbose = false; h.labels = 0; long b = live_blocks();
        r = run_once(h, s, msg); if (r != 0) break; kept = live_blocks() - b; if (kept <= 0) break;
    }
    *g.np = g.n; std::copy(ch.begin(), ch.end(), g.buf);
    if (r == 0 && kept > 0) { msg = std::to_string(kept) + " blocks of memory are left allocated after everything was released"; return 1; }
    return r;
}

static int classify(int st) {
    if (WIFEXITED(st)) { int c = WEXITSTATUS(st); if (c == 0) return 0; return c; }
    return 1000 + WTERMSIG(st);
}
static int fclass(int c) { return c == 0 ? 0 : c == EXIT_ASSERT ? 1 : c == EXIT_HANG ? 3 : 2; }

// run recorded choices in a forked child
static int run_forked(const Sub &s, const std::vector<u64> &ch, Slot *slot, bool verbose, const char *errfile, int times = 1) {
    fflush(0);
    pid_t p = fork();
    if (p == 0) {
        if (errfile) { int fd = open(errfile, O_WRONLY | O_CREAT | (verbose ? O_APPEND : O_TRUNC), 0644); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); } }
        handlers();
        for (int t = 0; t < times; t++) {
            arm();
            Gen g; init_gen(g, slot->buf, &slot->n); g.mode = 1; g.rep = ch.data(); g.rn = ch.size(); g.verbose = verbose;
            std::string msg;
            int r = run_case(g, s, msg);
            if (r == 1) { fprintf(stderr, "FAILED: %s\n", msg.c_str()); rm_rf(scratch()); _exit(EXIT_ASSERT); }
        }
        disarm(); rm_rf(scratch()); _exit(0);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    { char t[64]; snprintf(t, sizeof t, "/p%d", (int)p); if (!g_scratch.empty()) rm_rf(g_scratch + t); }
    return classify(st);
}

static std::vector<u64> shrink(const Sub &s, std::vector<u64> ch, Slot *slot, int want, double budget) {
    double t0 = now(); int tries = 0;
    std::vector<u64> best = ch;
    auto ok = [&](const std::vector<u64> &c) -> bool {
        if (now() - t0 > budget || tries > 6000) return false;
        tries++;
        int r = run_forked(s, c, slot, false, "/dev/null", (s.flags & 1) ? 5 : 1);
        if (fclass(r) != want) return false;
        return true;
    };
    auto accept = [&](std::vector<u64> c) { // normalise to what was really consumed
        size_t used = slot->n; if (used < c.size()) c.resize(used);
        best = c;
    };
    bool improved = true; int rounds = 0;
    while (improved && rounds++ < 6 && now() - t0 < budget) {
        improved = false;
        for (size_t k = best.size() / 2; k >= 1; k /= 2) {        // delete blocks from the end
            for (size_t i = best.size(); i >= k; ) {
                i = i > best.size() ? best.size() : i; if (i < k) break;
                std::vector<u64> c(best.begin(), best.begin() + (i - k)); c.insert(c.end(), best.begin() + i, best.end());
                if (ok(c)) { accept(c); improved = true; } 
                i = i > k ? i - k : 0; if (now() - t0 > budget) break;
            }
            if (now() - t0 > budget) break;
        }
        for (size_t k = best.size(); k >= 1 && now() - t0 < budget; k /= 2) {   // zero blocks
            for (size_t i = 0; i < best.size(); i += k) {
                std::vector<u64> c = best; bool ch2 = false;
                for (size_t j = i; j < std::min(i + k, c.size()); j++) { if (c[j]) ch2 = true; c[j] = 0; }
                if (ch2 && ok(c)) { accept(c); improved = true; }
            }
            if (k == 1) break;
        }
        for (size_t i = 0; i < best.size() && now() - t0 < budget; i++) {        // minimise values
            u64 hi = best[i], lo = 0; if (!hi) continue;
            int steps = 0;
            while (lo < hi && steps++ < 20) {
                u64 mid = lo + (hi - lo) / 2; std::vector<u64> c = best; if (i >= c.size()) break; c[i] = mid;
                if (ok(c)) { accept(c); hi = mid; improved = true; if (i >= best.size()) break; } else lo = mid + 1;
            }
        }
        // lower a value and delete the following block (list lengths)
        for (size_t i = 0; i + 1 < best.size() && now() - t0 < budget; i++) {
            if (!best[i]) continue;
            for (size_t k = 1; k <= 8 && i + 1 + k <= best.size(); k++) {
                std::vector<u64> c = best; c[i]--; c.erase(c.begin() + i + 1, c.begin() + i + 1 + k);
                if (ok(c)) { accept(c); improved = true; break; }
            }
        }
    }
    return best;
}

static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t";
        else if (c < 32 || c >= 127) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); r += t; }
        else r += c;
    }
    return r + "\"";
}
static std::string slurp(const std::string &f, size_t lim) {
    std::string r; FILE *fp = fopen(f.c_str(), "rb"); if (!fp) return r;
    char b[4096]; size_t k; while (r.size() < lim && (k = fread(b, 1, sizeof b, fp)) > 0) r.append(b, k);
    fclose(fp); if (r.size() > lim) r.resize(lim); return r;
}

static bool write_replay(const std::string &path, const Sub &s, const std::vector<u64> &ch, const std::string &desc) {
    FILE *f = fopen(path.c_str(), "w"); if (!f) return false;
    fprintf(f, "pbt-replay 1\nsub %s\nchoices %zu\n", s.name, ch.size());
    for (size_t i = 0; i < ch.size(); i++) fprintf(f, "%llu%c", (unsigned long long)ch[i], (i % 16 == 15 || i + 1 == ch.size()) ? '\n' : ' ');
    fprintf(f, "--- minimal case and report\n%s\n", desc.c_str());
    fclose(f); return true;
}
static bool read_replay(const char *path, std::string &sub, std::vector<u64> &ch) {
    FILE *f = fopen(path, "r"); if (!f) return false;
    char nm[256]; size_t n = 0;
    if (fscanf(f, "pbt-replay 1\nsub %255s\nchoices %zu\n", nm, &n) != 2) { fclose(f); return false; }
    sub = nm; unsigned long long v; for (size_t i = 0; i < n && fscanf(f, "%llu", &v) == 1; i++) ch.push_back(v);
    fclose(f); return true;
}

#ifndef PBT_FUZZ
int run_main(int argc, char **argv) {
    std::string tier = "quick", out, replay, outdir = ".", only, bytes; u64 seed = 1; int W = 8; double timecap = 600, scale = 1; std::string knownlist; int show = -1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") tier = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--out") out = nx(); else if (a == "--outdir") outdir = nx(); else if (a == "--replay") replay = nx();
        else if (a == "--bytes") bytes = nx();
        else if (a == "--workers") W = atoi(nx().c_str()); else if (a == "--timecap") timecap = atof(nx().c_str());
        else if (a == "--scale") scale = atof(nx().c_str()); else if (a == "--known") knownlist = nx(); else if (a == "--only") only = nx();
        else if (a == "--show") show = atoi(nx().c_str());
        else if (a == "--cpu-limit") g_cpu_limit = atoi(nx().c_str()); else if (a == "--wall-limit") g_wall_limit = atoi(nx().c_str());
    }
    { const char *e = getenv("PBT_SCRATCH"); g_scratch = e ? e : "/tmp"; }
    { std::string cur; for (char c : knownlist + ",") if (c == ',') { if (!cur.empty()) g_known.insert(cur); cur.clear(); } else cur += c; }
    // wide gaps around what the processes share, so that wild accesses of a worker fault instead of changing it
    size_t span = (sizeof(Slot) * (W + 1) + 0xfff) & ~(size_t)0xfff, gap = (size_t)64 << 20; char *zone = (char *)mmap(0, span + 2 * gap, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    Slot *slots = (Slot *)mmap(zone + gap, span, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
    Slot *ps = slots + W;
    if (!bytes.empty()) {            // libFuzzer artifact -> choices; first byte picks the sub
        std::string d = slurp(bytes, 1 << 22);
        if (d.empty()) return 2;
        const Sub &s = subs()[(unsigned char)d[0] % subs().size()];
        pid_t p = fork();
        if (p == 0) {
            handlers(); arm(); Gen g; init_gen(g, ps->buf, &ps->n); g.mode = 2; g.fz = (const uint8_t *)d.data() + 1; g.fzn = d.size() - 1;
            std::string msg; int r = run_case(g, s, msg); rm_rf(scratch()); _exit(r == 1 ? EXIT_ASSERT : 0);
        }
        int st; waitpid(p, &st, 0); int c = classify(st);
        printf("bytes: sub %s class %d\n", s.name, c);
        if (!c) return 0;
        std::vector<u64> ch(ps->buf, ps->buf + std::min<size_t>((size_t)ps->n, (size_t)CAP));
        ch = shrink(s, ch, ps, fclass(c), 60);
        std::string ef = outdir + "/err.txt"; unlink(ef.c_str());
        run_forked(s, ch, ps, true, ef.c_str(), 1);
        write_replay(outdir + "/fuzz.replay", s, ch, slurp(ef, 12000));
        return 1;
    }
    if (!replay.empty()) {
        std::string sn; std::vector<u64> ch;
        if (!read_replay(replay.c_str(), sn, ch)) { fprintf(stderr, "bad replay file\n"); return 2; }
        for (auto &s : subs()) if (sn == s.name) {
            int c = run_forked(s, ch, ps, true, 0, (s.flags & 1) ? 200 : 1);
            printf("replay %s: %s (class %d)\n", sn.c_str(), c ? "FAILS" : "passes", c);
            return c ? 1 : 0;
        }
        fprintf(stderr, "no such sub\n"); return 2;
    }
    double t0 = now();
    std::string js = "{\"subs\":["; bool firstsub = true; int nfail = 0; u64 tot = 0, totnt = 0;
    std::string failjs;
    for (auto &s : subs()) {
        if (!only.empty() && only != s.name) continue;
        u64 N = (u64)((tier == "thorough" ? s.thorough : s.quick) * scale); if (N < 1) N = 1;
        double subcap = timecap;     // total budget; remaining shared by what is left
        {   u64 rem = 0; bool seen = false; for (auto &q : subs()) { if (&q == &s) seen = true; if (seen && (only.empty() || only == q.name)) rem++; }
            double left = timecap - (now() - t0); if (left < 1) left = 1; subcap = rem ? std::max(left / rem, left * 0.35) : left; }
        u64 base = mix(seed, hash_name(s.name)); double ts = now();
        if (show >= 0) {
            Gen g; init_gen(g, ps->buf, &ps->n); g.rs = mix(base, show); g.verbose = true; std::string m; int r = run_case(g, s, m);
            printf("%s #%d -> %d %s (%zu choices)\n", s.name, show, r, m.c_str(), (size_t)ps->n); continue;
        }
        int nw = (int)std::min<u64>(W, N);
        std::vector<pid_t> pid(nw); 
        fflush(0);
        std::string efb = outdir + "/w";
        for (int w = 0; w < nw; w++) {
            slots[w].active = 1; slots[w].done = 0; slots[w].n = 0;
            pid_t p = fork();
            if (p == 0) {
                { std::string ef = efb + std::to_string(w) + ".err"; int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 1); dup2(fd, 2); }
                handlers();
                std::unordered_set<u64> nt; std::vector<u64> ntidx; std::map<std::string, u64> labels; u64 disc = 0, cases = 0, choices = 0, nts = 0;
                Slot *sl = slots + w;
                for (u64 i = w; i < N; i += nw) {
                    if ((i / nw) % 16 == 0 && now() - ts > subcap) break;
                    sl->idx = i; arm();
                    Gen g; init_gen(g, sl->buf, &sl->n); g.rs = mix(base, i); g.labels = &labels;
                    std::string msg; int r = run_case(g, s, msg);
                    if (r == 1) { fprintf(stderr, "FAILED: %s\n", msg.c_str()); _exit(EXIT_ASSERT); }
                    cases++; choices += g.n;
                    if (r == 2) disc++;
                    else if (g.is_nt) { nts++; if (nt.size() < 3000000) nt.insert(hash_choices(g.buf, g.n)); if (ntidx.size() < 3) ntidx.push_back(i); }
                    sl->done = cases;
                }
                disarm();
                FILE *f = fopen((efb + std::to_string(w) + ".res").c_str(), "wb");
                u64 hd[6] = {cases, disc, choices, nts, (u64)nt.size(), (u64)ntidx.size()};
                fwrite(hd, 8, 6, f); std::vector<u64> v(nt.begin(), nt.end()); if (!v.empty()) fwrite(v.data(), 8, v.size(), f); if (!ntidx.empty()) fwrite(ntidx.data(), 8, ntidx.size(), f);
                for (auto &l : labels) fprintf(f, "%s %llu\n", l.first.c_str(), (unsigned long long)l.second);
                fclose(f); rm_rf(scratch()); fflush(0); _exit(0);
            }
            pid[w] = p;
        }
        u64 cases = 0, disc = 0, choices = 0, nts = 0; std::unordered_set<u64> all; std::vector<u64> idxs; std::map<std::string, u64> labels;
        int bestw = -1, bestc = 0; u64 bestidx = 0; size_t bestn = 0;
        for (int left = nw; left > 0;) {
            int st; pid_t p = wait(&st); if (p < 0) { if (errno == EINTR) continue; break; }
            int w = -1; for (int k = 0; k < nw; k++) if (pid[k] == p) w = k; if (w < 0) continue; left--;
            { char t[64]; snprintf(t, sizeof t, "/p%d", (int)p); rm_rf(g_scratch + t); }
            int c = classify(st);
            if (c == 1000 + SIGKILL) { fprintf(stderr, "worker killed (memory?)\n"); continue; }   // not evidence of anything
            if (c) {
                size_t n = std::min<size_t>((size_t)slots[w].n, (size_t)CAP); cases += std::min<u64>((u64)slots[w].done, N) + 1;
                if (bestw < 0 || n < bestn) { bestw = w; bestc = c; bestidx = slots[w].idx; bestn = n; }
                continue;
            }
            std::string d = slurp(efb + std::to_string(w) + ".res", (size_t)1 << 30);
            if (d.size() < 48) continue;
            u64 hd[6]; memcpy(hd, d.data(), 48); cases += hd[0]; disc += hd[1]; choices += hd[2]; nts += hd[3];
            const u64 *hv = (const u64 *)(d.data() + 48); for (u64 k = 0; k < hd[4]; k++) all.insert(hv[k]);
            for (u64 k = 0; k < hd[5]; k++) idxs.push_back(hv[hd[4] + k]);
            const char *lp = d.data() + 48 + 8 * (hd[4] + hd[5]), *le = d.data() + d.size();
            while (lp < le) { const char *e = (const char *)memchr(lp, '\n', le - lp); if (!e) break; std::string l(lp, e); size_t sp = l.rfind(' '); if (sp != std::string::npos) labels[l.substr(0, sp)] += strtoull(l.c_str() + sp + 1, 0, 10); lp = e + 1; }
        }
        tot += cases; totnt += all.size();
        std::vector<std::string> samples; std::sort(idxs.begin(), idxs.end());
        for (size_t k = 0; k < idxs.size() && samples.size() < 2; k++) {
            std::string sf = outdir + "/sample.txt"; unlink(sf.c_str()); fflush(0);
            pid_t p = fork();
            if (p == 0) {
                int fd = open(sf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 1); dup2(fd, 2); handlers(); arm();
                Gen g; init_gen(g, ps->buf, &ps->n); g.rs = mix(base, idxs[k]); g.verbose = true; std::string m; run_case(g, s, m); rm_rf(scratch()); fflush(0); _exit(0);
            }
            int st; waitpid(p, &st, 0);
            std::string t = slurp(sf, 1200); if (!t.empty()) samples.push_back(t);
        }
        if (bestw >= 0) {
            std::vector<u64> ch(slots[bestw].buf, slots[bestw].buf + bestn);
            std::string raw = slurp(efb + std::to_string(bestw) + ".err", 8000);
            // reproduce from the recorded choices
            int rep = 0, tries = (s.flags & 1) ? 20 : 3, rc = 0;
            for (int t = 0; t < tries; t++) { int c = run_forked(s, ch, ps, false, "/dev/null", (s.flags & 1) ? 50 : 1); if (c && c != 1000 + SIGKILL) { rep++; rc = c; if (s.flags & 1) break; } }
            bool believed = (s.flags & 1) ? rep >= 1 : rep >= 2;
            fprintf(stderr, "sub %s: case %llu failed (class %d), reproduced %d/%d\n", s.name, (unsigned long long)bestidx, bestc, rep, tries);
            if (believed) {
                std::vector<u64> mn = shrink(s, ch, ps, fclass(rc), (s.flags & 1) ? 30 : tier == "quick" ? 60 : 120);
                std::string ef = outdir + "/err.txt"; unlink(ef.c_str());
                int c2 = 0; for (int t = 0; t < ((s.flags & 1) ? 20 : 1) && !c2; t++) { unlink(ef.c_str()); c2 = run_forked(s, mn, ps, true, ef.c_str(), (s.flags & 1) ? 50 : 1); }
                if (!c2) { mn = ch; run_forked(s, mn, ps, true, ef.c_str(), 1); }
                std::string rp = outdir + "/" + s.name + ".replay";
                write_replay(rp, s, mn, slurp(ef, 12000) + "\n--- first report\n" + raw);
                failjs += std::string(nfail ? "," : "") + "{\"sub\":" + jstr(s.name) + ",\"replay\":" + jstr(rp) + ",\"report\":" + jstr(slurp(ef, 3000)) + "}";
                nfail++;
            } else {
                failjs += ""; labels["unreproduced_failure"]++;
                fprintf(stderr, "NOT REPRODUCED, inconclusive: %s\n", raw.c_str());
            }
        }
        js += std::string(firstsub ? "" : ",") + "{\"name\":" + jstr(s.name) + ",\"cases\":" + std::to_string(cases) + ",\"discarded\":" + std::to_string(disc) + ",\"choices\":" + std::to_string(choices) +
              ",\"nontrivial\":" + std::to_string(nts) + ",\"distinct_nontrivial\":" + std::to_string(all.size()) + ",\"rule\":" + jstr(s.rule) + ",\"planned\":" + std::to_string(N) + ",\"seconds\":" + std::to_string(now() - ts) + ",\"labels\":{";
        bool f1 = true; for (auto &l : labels) { js += std::string(f1 ? "" : ",") + jstr(l.first) + ":" + std::to_string(l.second); f1 = false; }
        js += "},\"samples\":["; f1 = true; for (auto &t : samples) { js += std::string(f1 ? "" : ",") + jstr(t); f1 = false; }
        js += "]}"; firstsub = false;
        fprintf(stderr, "  %-28s cases %8llu  distinct-nontrivial %8zu  %.1fs%s\n", s.name, (unsigned long long)cases, all.size(), now() - ts, bestw >= 0 ? "  ** FAILURE **" : "");
    }
    js += "],\"known\":["; bool fk = true;
    for (auto &k : knowns()) {
        if (!g_known.count(k.id)) continue;
        Sub s{"known", k.probe, 1, 1, "", 0};
        int c = run_forked(s, {}, ps, false, "/dev/null", 1);
        js += std::string(fk ? "" : ",") + "{\"id\":" + jstr(k.id) + ",\"fails\":" + (c ? "true" : "false") + "}"; fk = false;
    }
    js += "],\"failures\":[" + failjs + "],\"cases\":" + std::to_string(tot) + ",\"distinct_nontrivial\":" + std::to_string(totnt) + "}";
    if (!out.empty()) { FILE *f = fopen(out.c_str(), "w"); fputs(js.c_str(), f); fclose(f); }
    return nfail ? 1 : 0;
}
#endif
} // namespace pbt

extern "C" void *pbt_live_alloc(size_t a, size_t n) { void *p = aligned_alloc(a, n); if (p) { std::lock_guard<std::mutex> l(pbt::live_mutex()); pbt::live_set().insert(p); } return p; }
extern "C" void pbt_live_free(void *p) { if (p) { std::lock_guard<std::mutex> l(pbt::live_mutex()); pbt::live_set().erase(p); } free(p); }
extern "C" int pbt_live_getaddrinfo(const char *h, const char *s, const struct addrinfo *i, struct addrinfo **r) { int e = getaddrinfo(h, s, i, r); if (!e) { std::lock_guard<std::mutex> l(pbt::live_mutex()); pbt::live_set().insert(*r); } return e; }
extern "C" void pbt_live_freeaddrinfo(struct addrinfo *r) { { std::lock_guard<std::mutex> l(pbt::live_mutex()); pbt::live_set().erase(r); } freeaddrinfo(r); }
#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
    const char *e = getenv("PBT_SCRATCH"); pbt::g_scratch = e ? e : "/tmp";
    const char *k = getenv("PBT_KNOWN"); std::string cur; for (char c : std::string(k ? k : "") + ",") if (c == ',') { if (!cur.empty()) pbt::g_known.insert(cur); cur.clear(); } else cur += c;
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    static pbt::Slot *sl = (pbt::Slot *)mmap(0, sizeof(pbt::Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (!n) return 0;
    const pbt::Sub &s = pbt::subs()[d[0] % pbt::subs().size()];
    if (s.flags & 1) return 0;
    pbt::Gen g; pbt::init_gen(g, sl->buf, &sl->n); g.mode = 2; g.fz = d + 1; g.fzn = n - 1;
    std::string msg;
    if (pbt::run_case(g, s, msg) == 1) { fprintf(stderr, "FAILED: %s: %s\n", s.name, msg.c_str()); abort(); }
    return 0;
}
#else
int main(int argc, char **argv) { return pbt::run_main(argc, argv); }
#endif
