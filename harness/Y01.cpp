// Y01: system services do what they say (environment, commands, shared libraries, assertions)
// @so Y01_lib g++ -O1
// @fuzz-quick 0
// @fuzz-thorough 0
// @workers 6
// @assume commands are run by the installed /bin/sh and only print; the environment is changed by one thread
#include "treelib.hpp"
#include <sys/wait.h>
#include <sys/resource.h>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <map>
extern char **environ; typedef uint8_t u8;
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
static std::string name_of(Gen &g) { static const char *base[] = {"VZ_A", "VZ_B", "VZ_AB", "VZ_a", "VZ_", "VZ_A_LONGER_NAME", "VZ A", "VZ_\xc3\xa9", "V", "VZ_AA"}; return base[g.u(10)]; }
static std::string value_of(Gen &g) { switch (g.u(6)) { case 0: return ""; case 1: return g.str(5, "=a;:"); case 2: { std::string s = g.bytes(g.chance(1, 20) ? 20000 : 60); for (auto &c : s) if (!c) c = 'z'; return s; } case 3: { std::string s; size_t n = g.size(40); for (size_t i = 0; i < n; i++) s += (char)(1 + g.u(255)); return s; } default: return g.str(20, "abcdefgh0123 /:"); } }
PROPERTY(environment, 60000, 600000, "a variable was replaced and another removed and both were then read") {
    static const char *all[] = {"VZ_A", "VZ_B", "VZ_AB", "VZ_a", "VZ_", "VZ_A_LONGER_NAME", "VZ A", "VZ_\xc3\xa9", "V", "VZ_AA"}; for (auto a : all) unsetenv(a); size_t others = 0; for (char **e = environ; e && *e; e++) others++;
    std::map<std::string, std::string> m; int n = 1 + (int)g.size(24); bool repl = false, rem = false; std::vector<std::pair<const char *, std::string>> copies;
    auto read = [&](const std::string &k) {
        auto it = m.find(k); bool in = it != m.end(); const char *c = zpl_get_env(k.c_str()); zpl_string s = zpl_get_env_str(k.c_str()); const char *b = zpl_get_env_buf(k.c_str());
        REQUIRE(!c == !in && !s == !in && !b == !in, "%s: get_env %s, get_env_str %s, get_env_buf %s, the variable is %s", esc(k).c_str(), c ? "found" : "absent", s ? "found" : "absent", b ? "found" : "absent", in ? "set" : "not set");
        if (in) { REQUIRE(it->second == c, "get_env %s: %s, set to %s", esc(k).c_str(), esc(c).c_str(), esc(it->second).c_str()); REQUIRE(it->second == b, "get_env_buf %s: %s, set to %s", esc(k).c_str(), esc(b).c_str(), esc(it->second).c_str()); REQUIRE(it->second == s && (size_t)zpl_string_length(s) == it->second.size(), "get_env_str %s: %s, set to %s", esc(k).c_str(), esc(s).c_str(), esc(it->second).c_str()); zpl_string_free(s); REQUIRE(c != b, "get_env gave the environment's own bytes"); copies.emplace_back(c, it->second); }
    };
    for (int i = 0; i < n; i++) switch (g.u(6)) {
        case 0: case 1: case 2: { std::string k = name_of(g), v = value_of(g); if (m.count(k)) repl = true; std::string kk = k, vv = v; zpl_set_env(kk.c_str(), vv.c_str()); kk.assign(kk.size(), '?'); vv.assign(vv.size(), '?'); m[k] = v; g.note("set %s to %s", esc(k).c_str(), esc(v).c_str()); } break;
        case 3: { std::string k = name_of(g); if (m.erase(k)) rem = true; zpl_unset_env(k.c_str()); g.note("unset %s", esc(k).c_str()); } break;
        case 4: { const char *bad = g.boolean() ? "" : "VZ_A=B"; g.note("set or unset the impossible name \"%s\"", bad); if (g.boolean()) zpl_set_env(bad, "x"); else zpl_unset_env(bad); } break;
        default: read(name_of(g));
    }
    for (auto a : all) { read(a); const char *c = getenv(a); auto it = m.find(a); REQUIRE(!c == (it == m.end()) && (!c || it->second == c), "the program's environment has %s = %s", a, c ? esc(c).c_str() : "(none)"); }
    size_t now = 0; for (char **e = environ; e && *e; e++) now++; REQUIRE(now == others + m.size(), "%zu variables exist, %zu others and %zu of ours", now, others, m.size());
    for (auto &c : copies) { REQUIRE(c.second == c.first, "what get_env gave changed later from %s to %s", esc(c.second).c_str(), esc(c.first).c_str()); zpl_mfree((void *)c.first); }
    for (auto a : all) unsetenv(a); if (repl && rem) g.nontrivial();
}
struct Cmd { std::string text, out; bool big = false; };
static Cmd command(Gen &g) {
    Cmd c; static std::string path = std::string(scratch()) + "/data"; auto file = [&](size_t n) { std::string s; u64 r = g.draw(100000); int kind = (int)g.u(4); for (size_t i = 0; i < n; i++) { u64 x = splitmix(r); s += kind == 0 ? (char)x : kind == 1 ? (char)(x % 3 ? 'a' + x % 26 : 0) : kind == 2 ? (char)(x % 5 ? 'a' + x % 26 : '\n') : (char)(0xff - x % 2 * 0xf5); } FILE *f = fopen(path.c_str(), "wb"); if (!f) abort(); fwrite(s.data(), 1, s.size(), f); fclose(f); return s; };
    auto lit = [&](std::string &out) { std::string t; size_t n = g.size(30); for (size_t i = 0; i < n; i++) { unsigned ch = g.chance(1, 3) ? g.u(256) : 'a' + g.u(26); char b[8]; snprintf(b, sizeof b, "\\%03o", ch); t += b; out += (char)ch; } return "printf '" + t + "'"; };
    switch (g.u(8)) {
        case 0: case 1: c.text = lit(c.out); break;
        case 2: { c.text = lit(c.out); c.text += " ; " + lit(c.out); } break;
        case 3: c.out = file(g.size(3000)); c.text = "cat '" + path + "'"; break;
        case 4: { bool big = g.chance(1, 8); c.out = file(big ? 60000 + g.u(20000) : g.size(9000)); c.big = big; } c.text = "cat '" + path + "'"; break;
        case 5: c.text = g.boolean() ? "exit " + std::to_string(g.u(4)) : ":"; break;
        case 6: { c.text = lit(c.out); c.text = "( " + c.text + " ) ; printf err >/dev/null ; exit 3"; } break;
        default: c.text = g.boolean() ? "vz-no-such-command 2>/dev/null" : "printf lost >/dev/null"; break;
    }
    g.note("command %s: %zu bytes", c.big || c.text.size() > 300 ? "(long)" : c.text.c_str(), c.out.size()); return c;
}
static void clean(int before) { int st; pid_t p = waitpid(-1, &st, WNOHANG); REQUIRE(p == -1 && errno == ECHILD, "a child process is left behind"); REQUIRE(fds() == before, "%d descriptors are open, %d before", fds(), before); }
PROPERTY(commands, 4000, 20000, "the output has a zero byte, is cut by the buffer or is longer than a pipe holds", 1) {
    int before = fds(); Cmd c = command(g); bool nt = c.big || c.out.find('\0') != std::string::npos; std::string was = c.text;
    if (g.boolean()) {
        Meter m; zpl_allocator a = meter_allocator(m); zpl_string s = zpl_system_command_str(c.text.c_str(), a); REQUIRE(s, "no output string for a command that ran"); REQUIRE((size_t)zpl_string_length(s) == c.out.size(), "%td bytes of output, the command wrote %zu", zpl_string_length(s), c.out.size());
        size_t at = 0; while (at < c.out.size() && s[at] == c.out[at]) at++; REQUIRE(at == c.out.size(), "byte %zu of %zu is %d, the command wrote %d", at, c.out.size(), (u8)s[at], (u8)c.out[at]); REQUIRE(s[c.out.size()] == 0, "the string is not terminated"); REQUIRE(m.live == 1, "%ld blocks are in use for one string", m.live); zpl_string_free(s); REQUIRE(m.live == 0, "%ld blocks are left", m.live);
    } else {
        size_t n; switch (g.u(6)) { case 0: n = c.out.size(); break; case 1: n = c.out.size() + 1; break; case 2: n = c.out.empty() ? 0 : c.out.size() - 1; break; case 3: n = 0; break; case 4: n = g.u((unsigned)c.out.size() + 1); break; default: n = c.out.size() + g.u(200); }
        g.note("into %zu bytes", n); if (n && n < c.out.size()) nt = true; std::string init(n, '\x5a'); Exact buf(init); zpl_u32 r = zpl_system_command(c.text.c_str(), n, (char *)buf.p); REQUIRE(r == 1, "the command ran and %u is returned", r);
        size_t k = std::min(n, c.out.size()), at = 0; while (at < k && (u8)buf.p[at] == (u8)c.out[at]) at++; REQUIRE(at == k, "byte %zu of %zu is %d, the command wrote %d", at, k, (u8)buf.p[at], (u8)c.out[at]);
    }
    clean(before); if (nt) g.nontrivial();
}
// what cannot succeed: no memory for the output, no descriptors for the pipe
PROPERTY(refused_commands, 2500, 12000, "memory was refused after part of the output had been kept", 1) {
    int before = fds(); Cmd c = command(g);
    if (g.chance(1, 4)) {
        struct rlimit old, lim; getrlimit(RLIMIT_NOFILE, &old); lim = old; int probe = dup(0); close(probe); lim.rlim_cur = (rlim_t)probe + g.u(2); g.note("descriptors run out"); setrlimit(RLIMIT_NOFILE, &lim); char buf[64]; Meter m; zpl_u32 r = zpl_system_command(c.text.c_str(), sizeof buf, buf); zpl_string s = zpl_system_command_str(c.text.c_str(), meter_allocator(m)); setrlimit(RLIMIT_NOFILE, &old);
        REQUIRE(r == 0, "the command could not be run and %u is returned", r); REQUIRE(!s, "the command could not be run and a string is returned"); REQUIRE(m.live == 0, "%ld blocks are left", m.live);
    } else {
        Meter m; m.budget = (long)g.u(g.boolean() ? 2 : 12); long given = m.budget; g.note("%ld allocations granted", given); zpl_string s = zpl_system_command_str(c.text.c_str(), meter_allocator(m)); bool out = m.asked > given;
        if (s) { REQUIRE(!out, "a string is returned though memory was refused"); REQUIRE(std::string(s, (size_t)zpl_string_length(s)) == c.out, "%td bytes of output, the command wrote %zu", zpl_string_length(s), c.out.size()); m.budget = -1; zpl_string_free(s); } else REQUIRE(out, "no string is returned though no memory was refused");
        REQUIRE(m.live == 0, "%ld blocks are left", m.live); if (out && given) g.nontrivial();
    }
    clean(before);
}
typedef i64 (*Add)(i64); typedef i64 (*Mul)(i64, i64);
PROPERTY(libraries, 6000, 40000, "a library was loaded twice, unloaded once and used again") {
    static std::string dir = scratch(); static const int N = 3; static std::string paths[N]; if (paths[0].empty()) { const char *so = getenv("PBT_SO"); if (!so) abort(); for (int i = 0; i < N; i++) { paths[i] = dir + "/lib" + std::to_string(i) + ".so"; std::string cp = "cp '" + std::string(so) + "' '" + paths[i] + "'"; if (system(cp.c_str())) abort(); } FILE *f = fopen((dir + "/text").c_str(), "w"); fputs("not a library", f); fclose(f); }
    struct L { std::vector<zpl_dll_handle> h; i64 total = 100; } ls[N]; int n = 1 + (int)g.size(24); bool nt = false;
    auto loaded = [&](int i) { void *h = dlopen(paths[i].c_str(), RTLD_LAZY | RTLD_NOLOAD); if (h) dlclose(h); return h != NULL; };
    for (int i = 0; i < n; i++) {
        int k = (int)g.u(N); L &l = ls[k];
        switch (g.u(7)) {
            case 0: case 1: { g.note("load %d", k); zpl_dll_handle h = zpl_dll_load(paths[k].c_str()); REQUIRE(h, "a library that exists is not loaded: %s", dlerror()); REQUIRE(l.h.empty() || l.h[0] == h, "one library has two handles"); l.h.push_back(h); for (int j = 0; j < N; j++) REQUIRE(j == k || ls[j].h.empty() || ls[j].h[0] != h, "two libraries share a handle"); } break;
            case 2: if (!l.h.empty()) { g.note("unload %d", k); zpl_dll_unload(l.h.back()); l.h.pop_back(); if (l.h.empty()) l.total = 100; else nt = true; } break;
            case 3: case 4: if (!l.h.empty()) { i64 v = (i64)g.u(1000) - 500; g.note("call %d", k); Add f = (Add)zpl_dll_proc_address(l.h[0], "y01_add"); REQUIRE(f, "a function of the library is not found"); i64 r = f(v); l.total += v; REQUIRE(r == l.total, "the library's function gives %lld, expected %lld", (long long)r, (long long)l.total); Mul q = (Mul)zpl_dll_proc_address(l.h.back(), "y01_mul"); REQUIRE(q && q(v, 3) == v * 3, "another function of the library does not work"); i64 *d = (i64 *)(void *)zpl_dll_proc_address(l.h[0], "y01_data"); REQUIRE(d && *d == 77, "a variable of the library is not found"); } break;
            case 5: if (!l.h.empty()) { static const char *no[] = {"y01_hidden", "y01_ad", "y01_addd", "", "Y01_ADD", "total"}; const char *s = no[g.u(6)]; REQUIRE(!zpl_dll_proc_address(l.h[0], s), "a function \"%s\" is found", s); } break;
            default: { static const char *no[] = {"/absent.so", "/text", "/", "/lib0.so/x"}; std::string p = dir + no[g.u(4)]; REQUIRE(!zpl_dll_load(p.c_str()), "%s is loaded as a library", p.c_str()); } break;
        }
        for (int j = 0; j < N; j++) REQUIRE(loaded(j) == !ls[j].h.empty(), "library %d is %s the program, %zu loads are not undone", j, loaded(j) ? "in" : "not in", ls[j].h.size());
    }
    for (auto &l : ls) for (auto h : l.h) zpl_dll_unload(h);
    if (nt) g.nontrivial();
}
// ---- assertions, in a forked child whose error output is kept
struct End { std::string out; int status; bool went_on; };
template <class F> static End in_child(F f) {
    int e[2], k[2]; if (pipe(e) || pipe(k)) abort(); fflush(NULL); pid_t p = fork(); if (p < 0) abort();
    if (p == 0) { signal(SIGILL, SIG_DFL); signal(SIGTRAP, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL); struct rlimit none = {0, 0}; setrlimit(RLIMIT_CORE, &none); dup2(e[1], 2); close(e[0]); close(k[0]); f(); (void)!write(k[1], "x", 1); _exit(0); }
    close(e[1]); close(k[1]); End r; r.went_on = false; char b[4096]; ssize_t n; while ((n = read(e[0], b, sizeof b)) > 0) r.out.append(b, (size_t)n); if (read(k[0], b, 1) == 1) r.went_on = true; close(e[0]); close(k[0]); waitpid(p, &r.status, 0); return r;
}
PROPERTY(assertions, 3000, 15000, "a condition that fails") {
    int kind = (int)g.u(11), x = (int)g.u(10), evals = 0; std::string msg = g.chance(1, 8) ? std::string(g.u(3000), 'm') : g.str(60, "abc %\n\t%s%d0"), want_cond, want_msg; for (auto &c : msg) if (!c) c = 'z'; bool fails = false; int line = 0; i64 val = g.i64any(); int arr[4] = {0, 1, 2, 3}; int *ptrs[4] = {arr, nullptr, arr + 1, nullptr}; int s = (int)g.u(4), code = (int)g.u(256); i64 *shared = nullptr; (void)evals; (void)shared;
    End r;
    switch (kind) {
        case 0: fails = x != 3; want_cond = "x == 3"; r = in_child([&] { ZPL_ASSERT(x == 3); }); line = __LINE__; break;
        case 1: fails = arr[s % 4] != 1; want_cond = "arr[s % 4] == 1"; r = in_child([&] { ZPL_ASSERT(arr[s % 4] == 1); }); line = __LINE__; break;
        case 2: fails = x < 5; want_cond = "!(x < 5)"; want_msg = msg; r = in_child([&] { ZPL_ASSERT_MSG(!(x < 5), "%s", msg.c_str()); }); line = __LINE__; break;
        case 3: fails = x < 5; want_cond = "x >= 5"; want_msg = "value " + std::to_string(val) + " of " + msg + "."; r = in_child([&] { ZPL_ASSERT_MSG(x >= 5, "value %lld of %s.", (long long)val, msg.c_str()); }); line = __LINE__; break;
        case 4: fails = !ptrs[s]; want_msg = "ptrs[s] must not be NULL"; r = in_child([&] { ZPL_ASSERT_NOT_NULL(ptrs[s]); }); line = __LINE__; break;
        case 5: fails = !ptrs[s]; want_msg = "ptrs[s % 4] must not be NULL"; r = in_child([&] { ZPL_ASSERT_NOT_NULL(ptrs[s % 4]); }); line = __LINE__; break;
        case 6: fails = true; want_msg = "end: " + msg; r = in_child([&] { ZPL_PANIC("end: %s", msg.c_str()); }); line = __LINE__; break;
        case 7: fails = true; want_msg = msg; r = in_child([&] { zpl_assert_crash(msg.c_str()); }); break;
        case 8: fails = true; want_msg = "not implemented"; r = in_child([&] { ZPL_NOT_IMPLEMENTED; }); line = __LINE__; break;
        case 9: { g.note("exit %d", code); r = in_child([&] { zpl_exit((zpl_u32)code); }); REQUIRE(WIFEXITED(r.status) && WEXITSTATUS(r.status) == code && !r.went_on, "zpl_exit(%d): status %x", code, r.status); REQUIRE(r.out.empty(), "zpl_exit wrote %s", esc(r.out).c_str()); return; }
        default: { // the condition is evaluated once, as if it stood there; also inside an unbraced if/else
            want_cond = "(++evals, x != 4)"; fails = x == 4; int *pe = &evals; r = in_child([&] { evals = 0; if (x >= 0) ZPL_ASSERT((++evals, x != 4)); else *pe = 100; if (evals != 1) { (void)!write(2, "twice", 5); } }); line = __LINE__; break; }
    }
    g.note("kind %d, x %d, s %d, %s", kind, x, s, esc(msg.substr(0, 80)).c_str());
    if (!fails) { REQUIRE(r.went_on && r.out.empty() && WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0, "an assertion that holds: status %x, output %s", r.status, esc(r.out).c_str()); return; }
    REQUIRE(!r.went_on, "the program went on after an assertion failed"); REQUIRE(WIFSIGNALED(r.status) || WEXITSTATUS(r.status) != 0, "the program reported success after an assertion failed");
    REQUIRE(r.out.find(want_cond) != std::string::npos, "the report %s lacks the condition %s", esc(r.out).c_str(), want_cond.c_str()); REQUIRE(r.out.find(want_msg) != std::string::npos, "the report %s lacks the message %s", esc(r.out).c_str(), esc(want_msg).c_str());
    if (line) { REQUIRE(r.out.find(__FILE__) != std::string::npos, "the report %s lacks the file", esc(r.out).c_str()); REQUIRE(r.out.find(std::to_string(line)) != std::string::npos, "the report %s lacks line %d", esc(r.out).c_str(), line); }
    g.nontrivial();
}
