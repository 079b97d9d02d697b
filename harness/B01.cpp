// B01: the configuration decides what is present, never what it does
// @cpu-limit 60
// @wall-limit 400
// @assume gcc, g++, clang and clang++ on x86-64 Linux; a selection without the core module is only combined with the modules that do not need it (hashing, dll, math, threading, socket), and ZPL_STATIC with a single translation unit; under ZPL_NO_MATH_H reals are compared within 2e-6
#include "zh.hpp"
#include <sys/file.h>
#include <sys/wait.h>
#include <set>
#include <map>
#include <math.h>
static std::string repo() { const char *r = getenv("ZPL_REPO"); return std::string(r ? r : "/repo") + "/code"; }
static std::string driver() { std::string f = __FILE__; return f.substr(0, f.rfind('/')) + "/B01_driver.c"; }
static std::string slurp(const std::string &p) { std::string s; if (FILE *f = fopen(p.c_str(), "rb")) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); } return s; }
static int sh(const std::string &c) { int r = system(c.c_str()); return WIFEXITED(r) ? WEXITSTATUS(r) : 128 + WTERMSIG(r); }
static const char *MODS[] = {"CORE", "HASHING", "REGEX", "DLL", "OPTS", "PROCESS", "MATH", "THREADING", "JOBS", "PARSER", "SOCKET"}; static const int NM = 11;
enum { CORE, HASHING, REGEX, DLL, OPTS, PROCESS, MATH, THREADING, JOBS, PARSER, SOCKET };
static bool needs_core(int m) { return m == REGEX || m == OPTS || m == PROCESS || m == JOBS || m == PARSER; }
struct Cfg { std::string sel, opt; std::set<int> on; std::string cc, lang, std_, flags; int link = 0; bool exact = true; };
static void selection(Gen &g, Cfg &c) {
    int base = (int)g.u(4); std::set<int> en, dis; c.on.clear();
    if (base == 3) { bool core = !g.chance(1, 3); if (core) c.on.insert(CORE); for (int m = 1; m < NM; m++) if (g.boolean() && (core || !needs_core(m))) c.on.insert(m); if (c.on.count(JOBS)) c.on.insert(THREADING);
        c.sel = "-DZPL_CUSTOM_MODULES -DZPL_MODULE_ESSENTIALS"; for (int m : c.on) c.sel += std::string(" -DZPL_MODULE_") + MODS[m]; return; }
    if (base == 0) for (int m = 0; m < NM; m++) c.on.insert(m); else if (base == 1) c.on.insert(CORE);
    c.sel = base == 1 ? "-DZPL_NANO" : base == 2 ? "-DZPL_PICO" : "";
    for (int m = 0; m < NM; m++) { if (g.chance(1, 3)) en.insert(m); if (g.chance(1, base ? 8 : 4)) dis.insert(m); }
    if (base && !en.count(CORE) && g.boolean()) en.insert(CORE);
    bool core = (base != 2 || en.count(CORE)) && !dis.count(CORE);
    if (!core) for (int m = 1; m < NM; m++) if (needs_core(m)) { en.erase(m); if (base == 0) dis.insert(m); }
    for (int m : en) { c.on.insert(m); if (m == JOBS) c.on.insert(THREADING); c.sel += std::string(" -DZPL_ENABLE_") + MODS[m]; }
    for (int m : dis) { c.on.erase(m); if (m == THREADING) c.on.erase(JOBS); c.sel += std::string(" -DZPL_DISABLE_") + MODS[m]; }
}
static void toolchain(Gen &g, Cfg &c) {
    bool cl = g.boolean(), cpp = g.chance(1, 2); c.cc = cpp ? cl ? "clang++" : "g++" : cl ? "clang" : "gcc"; c.lang = cpp ? "c++" : "c";
    static const char *cs[] = {"gnu11", "gnu99", "c99", "c11", "gnu17", "gnu2x"}, *ps[] = {"gnu++17", "c++98", "gnu++98", "c++11", "gnu++14", "c++17", "gnu++20"}; c.std_ = cpp ? ps[g.u(7)] : cs[g.u(6)];
    static const char *os[] = {"-O0", "-O0", "-O0", "-O1", "-O2", "-O3", "-Os"}; c.flags = os[g.u(7)];
    static const char *xs[] = {"", "", "", "-funsigned-char", "-fPIC", "-g", "-DNDEBUG", "-D_GNU_SOURCE", "-fsanitize=address", "-fno-strict-aliasing", "-ftrapv"}; int x = (int)g.u(10); if (*xs[x]) c.flags += std::string(" ") + xs[x];
}
static void options(Gen &g, Cfg &c) {
    c.opt = ""; static const char *o[] = {"EXPOSE_TYPES", "DEFINE_NULL_MACRO", "NO_MATH_H", "HEAP_ANALYSIS", "PARSER_DISABLE_ANALYSIS"};
    for (int i = 0; i < 5; i++) if (g.chance(1, 4)) { c.opt += std::string(" -DZPL_") + o[i]; if (i == 2) c.exact = false; }
    c.link = (int)g.u(6); if (c.link == 5) c.link = 0; }   // 0 one unit, 1 implementation + driver + a second user, 2 static library, 3 shared library, 4 everything static in one unit
static std::string parts(const Cfg &c) { std::string s; for (int m = 0; m < NM; m++) s += std::string(c.on.count(m) ? " -DW_" : " -DA_") + MODS[m]; return s; }
static std::string describe(const Cfg &c) { static const char *l[] = {"one unit", "three units", "static library", "shared library", "one static unit"}; return c.cc + " -std=" + c.std_ + " " + c.flags + " " + c.sel + c.opt + " [" + l[c.link] + "]"; }
static std::string command(const Cfg &c, const std::string &more) { return "timeout 300 " + c.cc + " -x " + c.lang + " -std=" + c.std_ + " " + c.flags + " -w -I" + repo() + " " + c.sel + c.opt + parts(c) + " " + more + " >>log 2>&1"; }
static int build(const Cfg &c, const std::string &dir, const std::string &exe) {
    std::string in = "cd " + dir + " && ", L = " -lpthread -ldl -lm", d = driver(), one = command(c, "-DB01_IMPL -DB01_MAIN " + d + " -o " + exe + (c.link == 4 ? " -DZPL_STATIC" : "") + L);
    std::string lk = "timeout 300 " + c.cc + " " + c.flags + " ";
    sh(in + "rm -f i.o m.o s.o u.o libb01.a libb01.so log " + exe);
    switch (c.link) { case 0: case 4: return sh(in + one);
        case 1: return sh(in + command(c, "-DB01_IMPL -c " + d + " -o i.o") + " && " + command(c, "-DB01_MAIN -DSECOND_UNIT -c " + d + " -o m.o") + " && " + command(c, "-DB01_OTHER -c " + d + " -o s.o") + " && " + lk + "m.o s.o i.o -o " + exe + L + " >>log 2>&1");
        case 2: return sh(in + command(c, "-DZPL_STATIC_LIB -DB01_IMPL -c " + d + " -o i.o") + " && " + command(c, "-DZPL_STATIC_LIB -DB01_MAIN -c " + d + " -o m.o") + " && ar cr libb01.a i.o && " + lk + "m.o ./libb01.a -o " + exe + L + " >>log 2>&1");
        default: return sh(in + command(c, "-DZPL_SHARED_LIB -fPIC -DB01_IMPL -shared " + d + " -o libb01.so" + L) + " && " + command(c, "-DZPL_SHARED_LIB -DB01_MAIN -c " + d + " -o m.o") + " && " + lk + "m.o -L. -lb01 -Wl,-rpath,'$ORIGIN' -o " + exe + L + " >>log 2>&1"); }
}
// the reference: everything, with the default settings, built once for a run of the harness
static std::string reference() {
    const char *t = getenv("PBT_SCRATCH"); std::string d = std::string(t ? t : "/tmp") + "/b01ref"; mkdir(d.c_str(), 0755); std::string exe = d + "/ref"; int fd = open((d + "/lock").c_str(), O_CREAT | O_RDWR, 0644); flock(fd, LOCK_EX);
    if (access(exe.c_str(), X_OK)) { Cfg c; for (int m = 0; m < NM; m++) c.on.insert(m); c.cc = "gcc"; c.lang = "c"; c.std_ = "gnu11"; c.flags = "-O0"; int r = build(c, d, "ref.tmp"); if (!r) rename((exe + ".tmp").c_str(), exe.c_str()); else { std::string log = slurp(d + "/log"); flock(fd, LOCK_UN); close(fd); fail("the default configuration does not build: %s", log.substr(0, 1500).c_str()); } }
    flock(fd, LOCK_UN); close(fd); return exe;
}
static std::map<std::string, std::string> sections(const std::string &t) { std::map<std::string, std::string> m; size_t p = 0; std::string cur = "?"; while (p < t.size()) { size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size(); std::string l = t.substr(p, e - p); p = e + 1; if (l.compare(0, 3, "== ") == 0) { cur = l.substr(3); m[cur]; } else m[cur] += l + "\n"; } return m; }
static bool same_text(const std::string &a, const std::string &b, bool exact, std::string &why) {
    size_t i = 0, j = 0; int line = 1; while (i < a.size() || j < b.size()) { size_t x = a.find('\n', i), y = b.find('\n', j); if (x == std::string::npos) x = a.size(); if (y == std::string::npos) y = b.size(); std::string p = i < a.size() ? a.substr(i, x - i) : "(nothing)", q = j < b.size() ? b.substr(j, y - j) : "(nothing)";
        if (p != q) { bool ok = false; if (!exact && p.compare(0, 2, "r ") == 0 && q.compare(0, 2, "r ") == 0) { double u = atof(p.c_str() + 2), v = atof(q.c_str() + 2); ok = fabs(u - v) <= 2e-6 * (1 + std::max(fabs(u), fabs(v))); } if (!ok) { why = "line " + std::to_string(line) + ": " + p.substr(0, 300) + "\ninstead of " + q.substr(0, 300); return false; } }
        i = x + 1; j = y + 1; line++; } return true; }
static int run(const std::string &dir, const std::string &exe, unsigned long long seed, const std::string &out) { return sh("cd " + dir + " && ASAN_OPTIONS=detect_leaks=0 timeout 60 " + exe + " " + std::to_string(seed) + " >" + out + " 2>" + out + ".err"); }
PROPERTY(behaviour, 120, 4000, "a selection or option other than the default") {
    Cfg c; selection(g, c); options(g, c); toolchain(g, c); g.note("%s", describe(c).c_str()); if (!c.sel.empty() || !c.opt.empty()) g.nontrivial(); g.label(c.cc.c_str());
    std::string dir = scratch(), ref = reference(); REQUIRE(build(c, dir, "prog") == 0, "does not build: %s", slurp(dir + "/log").substr(0, 2000).c_str());
    int seeds = 6; for (int k = 0; k < seeds; k++) { unsigned long long s = g.u(1u << 30); std::string why;
        for (int attempt = 0; attempt < 3; attempt++) { why.clear(); int r0 = run(dir, ref, s, "want"); REQUIRE(r0 == 0, "seed %llu: the default configuration ends with %d: %s", s, r0, slurp(dir + "/want.err").substr(0, 800).c_str()); int r = run(dir, "./prog", s, "got");
            if (r) { why = "ends with " + std::to_string(r) + ": " + slurp(dir + "/got.err").substr(0, 1500); continue; }
            auto want = sections(slurp(dir + "/want")), got = sections(slurp(dir + "/got")); std::set<std::string> expect = {"ESSENTIALS", "END"}; for (int m : c.on) if (m != PROCESS) expect.insert(MODS[m]);
            for (auto &n : expect) { if (!got.count(n)) { why = "nothing from " + n; break; } std::string w; if (!same_text(got[n], want[n], c.exact, w)) { why = "section " + n + ", " + w; break; } }
            if (why.empty()) break; }
        REQUIRE(why.empty(), "seed %llu: %s", s, why.c_str()); }
}
// every function that the header declares in a configuration is there to be linked
PROPERTY(declarations, 60, 1500, "a selection or option other than the default") {
    Cfg c; selection(g, c); options(g, c); c.link = 1; toolchain(g, c); g.note("%s", describe(c).c_str()); if (!c.sel.empty() || !c.opt.empty()) g.nontrivial();
    std::string dir = scratch(); sh("echo '#include \"zpl.h\"' > " + dir + "/e.c"); REQUIRE(sh("cd " + dir + " && timeout 100 clang -std=gnu11 -E -P -w -I" + repo() + " " + c.sel + c.opt + " '-DZPL_DEF=extern VPMARK' e.c > e.i 2>log") == 0, "the header alone does not preprocess: %s", slurp(dir + "/log").substr(0, 800).c_str());
    std::string t = slurp(dir + "/e.i"), src = "#include \"zpl.h\"\n"; std::set<std::string> names; size_t p = 0;
    while ((p = t.find("VPMARK", p)) != std::string::npos) { size_t e = t.find(';', p); if (e == std::string::npos) break; for (size_t i = p + 6; i < e; i++) if ((isalpha((unsigned char)t[i]) || t[i] == '_') && !isalnum((unsigned char)t[i - 1]) && t[i - 1] != '_') { size_t j = i; while (isalnum((unsigned char)t[j]) || t[j] == '_') j++; size_t k = j; while (t[k] == ' ' || t[k] == '\n') k++; if (t[k] == '(' && t.compare(i, 4, "zpl_") == 0) { names.insert(t.substr(i, j - i)); break; } i = j; } p = e; }
    REQUIRE(names.size() > 15, "only %zu declarations found", names.size()); g.note("%zu declared functions", names.size());
    src += "typedef void (*any)(void);\nany volatile all[] = {\n"; for (auto &n : names) src += "(any)" + n + ",\n"; src += "0 };\nint main(void) { return 0; }\n"; if (FILE *f = fopen((dir + "/u.c").c_str(), "w")) { fwrite(src.data(), 1, src.size(), f); fclose(f); }
    REQUIRE(sh("cd " + dir + " && " + command(c, "-DB01_IMPL -c " + driver() + " -o i.o") + " && " + command(c, "-c u.c -o u.o") + " && timeout 300 " + c.cc + " " + c.flags + " u.o i.o -o all -lpthread -ldl -lm >>log 2>&1") == 0, "not every declared function can be used: %s", slurp(dir + "/log").substr(0, 1500).c_str());
}
