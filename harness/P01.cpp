// P01: formatted printing
// @assume %g and %a are outside the statement; %p and the ' ', '#' and '+' flags on integers may be decorated otherwise than by the C library (only the value, the width and the surroundings are checked); reals are truncated by design (an existing test pins "5.423" for 5.4231...), so reals are checked within one unit of the last digit.
#include "zh.hpp"
#include <math.h>
// A call is described by a format, 12 integer/pointer arguments and 8 double arguments.  With the System V calling convention the two classes are passed
// independently, so one fixed call shape can carry any mix of conversions, for zpl and for the C library alike.
struct Call { std::string fmt; u64 a[12]; double d[8]; int na = 0, nd = 0; std::vector<std::string> strs; Call() { for (auto &x : a) x = 0; for (auto &x : d) x = 0; strs.reserve(12); } };
#define ARGS(c) (c).a[0], (c).a[1], (c).a[2], (c).a[3], (c).a[4], (c).a[5], (c).a[6], (c).a[7], (c).a[8], (c).a[9], (c).a[10], (c).a[11], (c).d[0], (c).d[1], (c).d[2], (c).d[3], (c).d[4], (c).d[5], (c).d[6], (c).d[7]
static std::string libc_text(Call &c) { int n = snprintf(0, 0, c.fmt.c_str(), ARGS(c)); std::string s(n + 1, 0); snprintf(&s[0], n + 1, c.fmt.c_str(), ARGS(c)); s.resize(n); return s; }
static bool one_conv(Gen &g, Call &c, size_t maxw, size_t maxs) {           // appends one integer/char/string conversion; false when the arguments are used up
    if (c.na + 3 > 12) return false;
    std::string s = "%"; int kind = (int)g.u(10); bool minus = g.chance(1, 3), zero = kind < 7 && g.chance(1, 3), prec = g.chance(1, 3); if (minus) s += '-'; if (zero) s += '0'; if (minus && zero && g.boolean()) s = "%0-";
    int w = zero || g.chance(1, 2) ? 1 + (int)g.size(maxw) : 0;
    if (w) { if (g.chance(1, 3)) { s += '*'; c.a[c.na++] = (u64)(int64_t)(g.chance(1, 4) && !zero ? -w : w); } else s += std::to_string(w); }
    int p = prec ? (int)g.size(kind >= 8 ? 70 : 40) : -1; bool neg_p = false; if (prec && kind == 7) prec = false, p = -1;
    std::string ps; u64 pa = 0; bool star = false; if (prec) { if (g.chance(1, 3)) { star = true; ps = ".*"; if (g.chance(1, 4)) { neg_p = true; p = -1; } } else ps = p || kind < 8 || g.boolean() ? "." + std::to_string(p) : "."; }
    if (kind < 7) {
        static const char *mods[] = {"", "hh", "h", "l", "ll", "z", "t"}; const char *m = mods[g.u(7)]; char cv = "diuxXo"[g.u(6)]; u64 v = g.u64any(); if (g.u(3) == 0) v = 0 - v;
        int bits = !*m ? 32 : !strcmp(m, "hh") ? 8 : *m == 'h' ? 16 : 64; if (p == 0 && (bits == 64 ? v : v & ((1ull << bits) - 1)) == 0) v = 1;
        if (prec && star) c.a[c.na++] = (u64)(int64_t)p; s += ps; s += m; s += cv; c.a[c.na++] = v;
    } else if (kind == 7) { s += g.chance(1, 4) ? "%" : "c"; if (s.back() == 'c') c.a[c.na++] = 1 + g.u(255); else { s = "%%"; if (w && c.na && c.fmt.size()) {} } }
    else { if (prec && star) c.a[c.na++] = (u64)(int64_t)p; s += ps + "s"; std::string v = g.str(maxs, "abcxyzABC %\n\xff" "09"); c.strs.push_back(v); c.a[c.na++] = (u64)c.strs.back().c_str(); }
    (void)pa; (void)neg_p; c.fmt += s; return true;
}
// "%%" may follow a '*' argument that was already queued; it then stays unused by both sides, so drop it again
static void gen_call(Gen &g, Call &c, size_t maxc, size_t maxw, size_t maxs) {
    size_t n = 1 + g.u(maxc);
    for (size_t i = 0; i < n; i++) { if (g.boolean()) c.fmt += g.str(12, "ab -.0*\n\xe9" "x"); int na = c.na; size_t fl = c.fmt.size(); if (!one_conv(g, c, maxw, maxs)) break; if (c.fmt.compare(fl, std::string::npos, "%%") == 0) c.na = na; }
    if (g.boolean()) c.fmt += g.str(12, "ab -.0*\n\xe9" "x");
}
static void note_call(Gen &g, Call &c) { if (!g.verbose) return; g.note("format %s", esc(c.fmt).c_str()); for (int i = 0; i < c.na; i++) { bool str = false; for (auto &s : c.strs) if ((u64)s.c_str() == c.a[i]) { g.note("  arg %d: %s", i, esc(s).c_str()); str = true; } if (!str) g.note("  arg %d: %llu (0x%llx)", i, (unsigned long long)c.a[i], (unsigned long long)c.a[i]); } }
static std::string mem_print(Call &c, zpl_isize &ret) {
    zpl_file f; REQUIRE(zpl_file_stream_new(&f, zpl_heap_allocator()), "opening a memory stream"); ret = zpl_fprintf(&f, c.fmt.c_str(), ARGS(c)); zpl_isize n = 0; zpl_u8 *b = zpl_file_stream_buf(&f, &n); std::string s((char *)b, (size_t)zpl_file_size(&f)); zpl_file_close(&f); return s;
}
static void check_all_outputs(Gen &g, Call &c, const std::string &want) {
    zpl_isize L = want.size(), r;
    switch (g.u(4)) {
    case 0: { char *b = 0; r = zpl_asprintf(zpl_heap_allocator(), &b, c.fmt.c_str(), ARGS(c)); REQUIRE(b && r == L + 1, "asprintf returns %ld for %ld characters", (long)r, (long)L); std::string got(b, L + 1); zpl_free(zpl_heap_allocator(), b); REQUIRE(!memcmp(got.data(), want.c_str(), L + 1), "asprintf gives %s, expected %s", esc(got).c_str(), esc(want).c_str()); break; }
    case 1: { std::string got = mem_print(c, r); REQUIRE(got == want, "fprintf writes %s, expected %s", esc(got).c_str(), esc(want).c_str()); REQUIRE(r == L + 1, "fprintf returns %ld for %ld characters", (long)r, (long)L); break; }
    case 2: { const char *b = zpl_bprintf(c.fmt.c_str(), ARGS(c)); std::string w = want.substr(0, ZPL_PRINTF_MAXLEN - 1); REQUIRE(w == b, "bprintf gives %s, expected %s", esc(b, strlen(b)).c_str(), esc(w).c_str()); break; }
    default: { Exact d(L + 1 + g.size(20), 0x55); r = zpl_snprintf(d.c(), d.n, c.fmt.c_str(), ARGS(c)); REQUIRE(r == L + 1, "snprintf returns %ld for %ld characters", (long)r, (long)L); } }
}
PROPERTY(integers_strings, 500000, 8000000, "at least 2 conversions of which one has a width or precision") {
    Call c; gen_call(g, c, 6, 40, 60); note_call(g, c); if (std::count(c.fmt.begin(), c.fmt.end(), '%') >= 2 && c.fmt.find_first_of("0123456789*.") != std::string::npos) g.nontrivial();
    std::string want = libc_text(c); zpl_isize L = want.size();
    Exact b(L + 1, 0x55); zpl_isize r = zpl_snprintf(b.c(), b.n, c.fmt.c_str(), ARGS(c)); b.p[L] ? (void)0 : (void)0;
    REQUIRE(!memcmp(b.p, want.c_str(), L + 1), "prints %s, the C library %s", esc(b.p, L + 1).c_str(), esc(want).c_str()); REQUIRE(r == L + 1, "snprintf returns %ld for %ld characters", (long)r, (long)L);
    size_t n = g.boolean() ? g.u(L + 1) : std::min<size_t>(g.size(L), L); Exact s(n, 0x55); r = zpl_snprintf(s.c(), n, c.fmt.c_str(), ARGS(c)); g.note("bounded to %zu", n);
    if (n) { REQUIRE(memchr(s.p, 0, n), "bounded to %zu: not terminated", n); REQUIRE(want.substr(0, n - 1) == s.c(), "bounded to %zu gives %s, expected a prefix of %s", n, esc(s.p, strlen(s.c())).c_str(), esc(want).c_str()); }
    REQUIRE(r == -1, "bounded to %zu returns %ld although %ld characters do not fit", n, (long)r, (long)L); check_all_outputs(g, c, want);
}
PROPERTY(long_output, 1500, 40000, "output longer than the internal 64 KiB buffer") {
    Call c; size_t n = 1 + g.u(4); for (size_t i = 0; i < n; i++) { c.fmt += g.str(10, "ab x"); c.strs.push_back(std::string(g.u(2) ? g.u(70000) : 65530 + g.u(12), "ab.Z"[g.u(4)])); c.fmt += g.boolean() ? "%s" : "%-70000s"; c.a[c.na++] = (u64)c.strs.back().c_str(); }
    c.fmt += g.str(10, "yz"); std::string want = libc_text(c); g.note("output of %zu characters, format %s", want.size(), esc(c.fmt).c_str()); if (want.size() >= 65536) g.nontrivial(); check_all_outputs(g, c, want);
}
static double any_real(Gen &g) {
    switch (g.u(9)) { case 0: return (double)g.i64any(); case 1: return (double)g.range(-100000, 100000) / 64; case 2: return (double)g.range(-2000000, 2000000) / 1000; case 3: { double m = 1 + (double)g.u(1u << 30) / (1u << 30); return (g.boolean() ? -m : m) * pow(2, (double)g.range(-60, 60)); }
        case 4: { u64 b = g.u(~0ull); double d; memcpy(&d, &b, 8); return d == 0 ? 1 : d; } case 5: return g.boolean() ? INFINITY : g.boolean() ? -INFINITY : NAN; case 6: { double d = pow(10, (double)g.range(-12, 30)); return g.boolean() ? nextafter(d, 0) : nextafter(d, INFINITY); } case 7: return 1 - (double)g.u(1000) * 1e-9; default: return (double)g.u(1u << 20) + (double)g.u(1000) / 1000; } }
// one real conversion: padding, sign and digit count exact, value less than one unit of the last printed digit away
PROPERTY(reals, 400000, 6000000, "a finite value that is not an integer, with a width or precision") {
    double v = any_real(g); if (v == 0) v = 0.5; bool minus = g.chance(1, 4), plus = g.chance(1, 4), zero = g.chance(1, 4); int w = zero || g.boolean() ? 1 + (int)g.size(60) : 0, p = g.boolean() ? (int)g.size(25) : -1; bool star = p >= 0 && g.chance(1, 3);
    Call c; c.fmt = std::string("<%") + (minus ? "-" : "") + (plus ? "+" : "") + (zero ? "0" : "") + (w ? std::to_string(w) : "") + (p < 0 ? "" : star ? ".*" : "." + std::to_string(p)) + (g.u(4) ? "f" : "F") + ">%d"; if (star) c.a[c.na++] = p; c.a[c.na++] = 77; c.d[0] = v; g.note("%s of %.17g (%a), precision %d", c.fmt.c_str(), v, v, p); if (std::isfinite(v) && v != rint(v) && (w || p >= 0)) g.nontrivial();
    char big[1000]; zpl_isize r = zpl_snprintf(big, sizeof big, c.fmt.c_str(), ARGS(c)); std::string got = big; REQUIRE(r == (zpl_isize)got.size() + 1, "returns %ld for %zu characters", (long)r, got.size()); size_t e = got.find('>'); REQUIRE(got[0] == '<' && e != std::string::npos && got.substr(e) == ">77", "surroundings lost: %s", got.c_str()); std::string f = got.substr(1, e - 1);
    if (p < 0) p = 6; std::string sign = v < 0 ? "-" : plus ? "+" : ""; std::string num; bool fin = std::isfinite(v);
    if (!fin) num = sign + (std::isnan(v) ? "nan" : "inf"); std::string body;
    if (!fin) { size_t i = f.find_first_not_of(' '); size_t j = f.find_last_not_of(' '); body = f.substr(i, j - i + 1); REQUIRE(body == num || (std::isnan(v) && (body == "-nan" || body == "+nan" || body == "nan")), "prints '%s', expected '%s' with padding", f.c_str(), num.c_str()); REQUIRE(f.size() == std::max<size_t>(w, body.size()) && (minus ? i == 0 : j + 1 == f.size()), "padding of '%s' to %d", f.c_str(), w); return; }
    size_t i = f.find_first_not_of(' '), j = f.find_last_not_of(' '); REQUIRE(i != std::string::npos, "prints nothing"); body = f.substr(i, j - i + 1); REQUIRE(f.size() == std::max<size_t>(w, body.size()), "'%s' has %zu characters, width %d", f.c_str(), f.size(), w); REQUIRE(minus ? i == 0 : j + 1 == f.size(), "'%s' padded on the wrong side", f.c_str());
    REQUIRE(body.compare(0, sign.size(), sign) == 0, "'%s': sign", f.c_str()); std::string dg = body.substr(sign.size()); size_t dot = dg.find('.'); std::string ip = dg.substr(0, dot), fp = dot == std::string::npos ? "" : dg.substr(dot + 1); REQUIRE((dot == std::string::npos) == (p == 0), "'%s': decimal point, precision %d", f.c_str(), p); REQUIRE((int)fp.size() == p && ip.size() >= 1, "'%s' has %zu fraction digits, expected %d", f.c_str(), fp.size(), p);
    REQUIRE(ip.find_first_not_of("0123456789") == std::string::npos && fp.find_first_not_of("0123456789") == std::string::npos, "'%s' is not a number", f.c_str()); if (zero && !minus) REQUIRE(i == 0, "'%s' padded with spaces instead of zeroes", f.c_str()); else REQUIRE(ip.size() == 1 || ip[0] != '0', "'%s' has leading zeroes", f.c_str());
    long double pr = strtold(dg.c_str(), 0), av = fabsl((long double)v), ulp = powl(10, -p); REQUIRE(fabsl(pr - av) <= ulp * (1 + 1e-9L) + av * 0x1p-50L, "prints %s for %.20Lg: off by %Lg", dg.c_str(), av, fabsl(pr - av));
    size_t n = g.u(got.size() + 2); Exact s(n, 0x55); r = zpl_snprintf(s.c(), n, c.fmt.c_str(), ARGS(c)); if (n) REQUIRE(memchr(s.p, 0, n) && got.substr(0, n - 1) == s.c(), "bounded to %zu gives %s", n, esc(s.p, n).c_str()); REQUIRE(r == (n > got.size() ? (zpl_isize)got.size() + 1 : -1), "bounded to %zu returns %ld", n, (long)r);
}
PROPERTY(repeat_and_null, 100000, 1000000, "repetition longer than the buffer") {
    int w = (int)g.size(200); char ch = 'a' + g.u(26); size_t n = g.size(220); std::string want = "[" + std::string(std::max(w, 1), ch) + "]"; Exact b(n, 0x55); bool star = g.boolean() && w; g.note("%%r of '%c' x %d into %zu", ch, w, n); if (n && n <= want.size()) g.nontrivial();
    zpl_isize r = star ? zpl_snprintf(b.c(), n, "[%*r]", w, ch) : zpl_snprintf(b.c(), n, w ? ("[%" + std::to_string(w) + "r]").c_str() : "[%r]", ch); REQUIRE(r == (n > want.size() ? (zpl_isize)want.size() + 1 : -1), "returns %ld", (long)r); if (n) REQUIRE(memchr(b.p, 0, n) && want.substr(0, n - 1) == b.c(), "gives %s", esc(b.p, n).c_str());
}
// conversions and flags whose decoration differs from the C library's: the value is readable back, the width is kept, and what follows is not derailed
PROPERTY(pointers_and_flags, 200000, 2000000, "%p, or a flag in front of a width") {
    static const char *fl[] = {"", " ", "#", "+", "-", " +", "-#", "# "}; std::string f = fl[g.u(8)]; int w = g.boolean() ? 1 + (int)g.size(40) : 0; bool ptr = g.boolean(), minus = f.find('-') != std::string::npos; char cv = ptr ? 'p' : "dxXuo"[g.u(5)]; u64 v = g.u64any(); if (!ptr) v &= 0x7fffffff;
    std::string fmt = "<%" + f + (w ? std::to_string(w) : "") + cv + ">%d"; g.note("%s of %llx", fmt.c_str(), (unsigned long long)v); if (ptr || (!f.empty() && w)) g.nontrivial(); char b[200]; memset(b, 0x55, sizeof b);
    zpl_isize r = ptr ? zpl_snprintf(b, sizeof b, fmt.c_str(), (void *)v, 77) : zpl_snprintf(b, sizeof b, fmt.c_str(), (unsigned)v, 77); std::string got(b, strnlen(b, sizeof b)); REQUIRE(r == (zpl_isize)got.size() + 1, "returns %ld for %zu characters", (long)r, got.size()); size_t e = got.find('>'); REQUIRE(got[0] == '<' && e != std::string::npos && got.substr(e) == ">77", "surroundings lost: %s", esc(got).c_str());
    std::string x = got.substr(1, e - 1); REQUIRE((int)x.size() >= w, "%s has %zu characters, width %d", esc(x).c_str(), x.size(), w); if (w && minus) REQUIRE(x[0] != ' ' || f.find(' ') != std::string::npos, "%s is padded on the wrong side", esc(x).c_str()); if (w && !minus) REQUIRE(x.back() != ' ', "%s is padded on the wrong side", esc(x).c_str());
    size_t i = x.find_first_not_of(' '), j = x.find_last_not_of(' '); REQUIRE(i != std::string::npos, "prints nothing"); std::string n = x.substr(i, j - i + 1); if (ptr && !v && n == "(nil)") return; if (n[0] == '+') n.erase(0, 1); bool hex = ptr || cv == 'x' || cv == 'X'; if (hex && n.size() > 2 && n[0] == '0' && (n[1] == 'x' || n[1] == 'X')) n.erase(0, 2);
    char want[40]; snprintf(want, sizeof want, ptr ? "%llx" : cv == 'd' || cv == 'u' ? "%llu" : cv == 'x' ? "%llx" : cv == 'X' ? "%llX" : "%llo", (unsigned long long)v); if (cv == 'o' && n == std::string("0") + want) return; REQUIRE(n == want, "prints %s, the value is %s", esc(n).c_str(), want);
}
// printing to the process's standard output and error: what ends up in the file or pipe behind them, in the order of the calls
#include <fcntl.h>
#include <unistd.h>
PROPERTY(standard_output, 20000, 200000, "output to both handles") {
    struct Sink { int fd, saved, kind, rd = -1; std::string path, want; } s[2]; zpl_isize ret[12], exp[12]; int n = 1 + (int)g.u(8), used = 0; std::vector<std::pair<int, Call>> calls;
    for (int i = 0; i < n; i++) { int h = (int)g.u(2); calls.emplace_back(h, Call()); Call &c = calls.back().second; c.strs.reserve(12); gen_call(g, c, 3, 20, 40); note_call(g, c); used |= 1 << h; }
    for (int h = 0; h < 2; h++) { Sink &k = s[h]; k.kind = (int)g.u(3); g.note("handle %d: %s", h + 1, k.kind == 0 ? "a pipe" : k.kind == 1 ? "a file" : "a file with content");
        if (k.kind == 0) { int p[2]; REQUIRE(!pipe(p), "pipe"); k.rd = p[0]; k.fd = p[1]; fcntl(k.rd, F_SETFL, O_NONBLOCK); } else { k.path = scratch() + "/std" + std::to_string(h); k.fd = open(k.path.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600); REQUIRE(k.fd >= 0, "open"); if (k.kind == 2) { k.want = "earlier "; (void)!write(k.fd, "earlier ", 8); } } }
    fflush(stdout); fflush(stderr); for (int h = 0; h < 2; h++) { s[h].saved = dup(h + 1); dup2(s[h].fd, h + 1); }
    for (int i = 0; i < n; i++) { Call &c = calls[i].second; std::string t = libc_text(c); exp[i] = t.size() + 1; s[calls[i].first].want += t; bool e = calls[i].first;
        if (g.u(3)) ret[i] = e ? zpl_printf_err(c.fmt.c_str(), ARGS(c)) : zpl_printf(c.fmt.c_str(), ARGS(c)); else ret[i] = zpl_fprintf(zpl_file_get_standard(e ? ZPL_FILE_STANDARD_ERROR : ZPL_FILE_STANDARD_OUTPUT), c.fmt.c_str(), ARGS(c)); }
    std::string got[2]; for (int h = 0; h < 2; h++) { dup2(s[h].saved, h + 1); close(s[h].saved); char b[4096]; ssize_t r; if (s[h].kind) s[h].rd = open(s[h].path.c_str(), O_RDONLY); close(s[h].fd); while ((r = read(s[h].rd, b, sizeof b)) > 0) got[h].append(b, r); close(s[h].rd); }
    for (int h = 0; h < 2; h++) REQUIRE(got[h] == s[h].want, "handle %d received %s, expected %s", h + 1, esc(got[h]).c_str(), esc(s[h].want).c_str()); for (int i = 0; i < n; i++) REQUIRE(ret[i] == exp[i], "call %d returns %ld for %ld characters", i, (long)ret[i], (long)exp[i] - 1); if (used == 3) g.nontrivial();
}
