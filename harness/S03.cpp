// S03: numbers and text
#include "zh.hpp"
static const char digits[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz@$";
static std::string ref(u64 v, int base) { std::string s; do { s += digits[v % base]; v /= base; } while (v); return std::string(s.rbegin(), s.rend()); }
static std::string tail(Gen &g) { switch (g.u(5)) { case 0: return ""; case 1: return g.str(4, " ,;:-+xg_z"); case 2: return "g" + g.str(3, "0123"); case 3: return std::string(1, (char)(0x80 + g.u(128))); default: return ":99"; } }
PROPERTY(integer_round_trip, 1500000, 30000000, "value of at least 3 digits in its base") {
    bool sg = g.boolean(); int base = g.u(4) ? (g.u(3) ? 10 : 16) : 2 + (int)g.u(63); u64 v = g.u64any(); if (g.u(8) == 0) { v = 1; int n = (int)g.u(64); for (int i = 0; i < n; i++) v *= base; v += (u64)g.range(-1, 1); }
    std::string want; bool neg = sg && (int64_t)v < 0; u64 mag = neg ? 0 - v : v; want = (neg ? "-" : "") + ref(mag, base); if (want.size() >= 3) g.nontrivial(); g.note("%s in base %d", want.c_str(), base);
    Exact out(want.size() + 1, 0x55); if (sg) zpl_i64_to_str((int64_t)v, out.c(), base); else zpl_u64_to_str(v, out.c(), base);
    REQUIRE(memchr(out.p, 0, want.size() + 1) && want == out.c(), "written as %s, expected %s", esc(out.p, want.size() + 1).c_str(), want.c_str());
    if (base <= 10 || base == 16) {
        std::string t = want; bool px = base == 16 && g.boolean(); if (px) t.insert(neg ? 1 : 0, "0x"); if (base == 16 && g.boolean()) for (size_t i = 0; i < t.size(); i++) if (t[i] >= 'A' && t[i] <= 'F') t[i] += 32;
        if (g.u(6) == 5) t.insert((neg ? 1 : 0) + (px ? 2 : 0), "000"); bool b0 = g.boolean() && (base == 10 || px); if (b0 && !px && t.size() > (size_t)neg + 1 && t[neg] == '0') b0 = g.boolean();
        std::string tl = tail(g); if (!tl.empty() && isxdigit((unsigned char)tl[0])) tl.insert(0, 1, ' '); if (tl[0] == 'x') tl[0] = ' '; Exact e(t + tl, true); char *end = 0; g.note("parsing %s in base %d", esc(t + tl).c_str(), b0 ? 0 : base);
        if (sg) { zpl_i64 r = zpl_str_to_i64(e.c(), &end, b0 ? 0 : base); REQUIRE(r == (int64_t)v, "parsed as %lld", (long long)r); } else { zpl_u64 r = zpl_str_to_u64(e.c(), &end, b0 ? 0 : base); REQUIRE(r == v, "parsed as %llu", (unsigned long long)r); }
        REQUIRE(end == e.c() + t.size(), "parsing stopped at %ld, the number ends at %zu", (long)(end - e.c()), t.size()); REQUIRE((sg ? (u64)zpl_str_to_i64(e.c(), 0, b0 ? 0 : base) : zpl_str_to_u64(e.c(), 0, b0 ? 0 : base)) == v, "parsing without an end pointer differs");
    }
}
PROPERTY(integer_text, 1000000, 20000000, "at least 2 digits followed by something that is no digit of the base") {
    static const int bases[] = {2, 3, 5, 7, 8, 9, 10, 16}; int base = bases[g.u(8)]; std::string t; if (g.u(3) == 0) t = "-"; size_t n = g.u(16); for (size_t i = 0; i < n && i < (base < 4 ? 60 : base < 10 ? 18 : 15); i++) t += g.u(8) ? digits[g.u(base)] : g.pickc("0123456789abcdefABCDEF");
    t += g.str(3, "019afz -"); Exact e(t, true); char *end = 0, *wend = 0; bool neg = !t.empty() && t[0] == '-'; size_t i = neg; u64 v = 0; for (; i < t.size(); i++) { int d = t[i] >= '0' && t[i] <= '9' ? t[i] - '0' : t[i] >= 'a' && t[i] <= 'f' ? t[i] - 'a' + 10 : t[i] >= 'A' && t[i] <= 'F' ? t[i] - 'A' + 10 : 99; if (d >= base) break; v = v * base + d; }
    (void)wend; g.note("text %s in base %d", esc(t).c_str(), base); if (i >= 2u + neg && i < t.size()) g.nontrivial(); if (neg && i == 1) return;       // a lone sign is no number
    zpl_i64 r = zpl_str_to_i64(e.c(), &end, base); REQUIRE(r == (neg ? -(int64_t)v : (int64_t)v), "signed: %lld, expected %s%llu", (long long)r, neg ? "-" : "", (unsigned long long)v); REQUIRE(end == e.c() + i, "signed: stops at %ld, expected %zu", (long)(end - e.c()), i);
    if (!neg) { zpl_u64 u = zpl_str_to_u64(e.c(), &end, base); REQUIRE(u == v, "unsigned: %llu, expected %llu", (unsigned long long)u, (unsigned long long)v); REQUIRE(end == e.c() + i, "unsigned: stops at %ld, expected %zu", (long)(end - e.c()), i); }
}
PROPERTY(reals, 1000000, 20000000, "a fraction or an exponent, and at least 3 significant digits") {
    std::string t; static const char *ws[] = {"", "", "", " ", "\t\n "}; t = ws[g.u(5)]; switch (g.u(4)) { case 0: t += "-"; break; case 1: t += "+"; break; } size_t ni = g.u(5) ? 1 + g.u(6) : g.u(22), nf = 0; std::string ip, fp; for (size_t i = 0; i < ni; i++) ip += (char)('0' + g.u(10));
    bool dot = g.boolean(); if (dot) { nf = g.u(5) ? g.u(6) : g.u(25); for (size_t i = 0; i < nf; i++) fp += (char)('0' + g.u(10)); } if (!ni && !nf) { ip = "7"; ni = 1; }
    t += ip; if (dot) t += "." + fp; if (g.u(3) == 0) { int e = g.boolean() ? (int)g.range(-20, 20) : (int)g.range(-308, 308); t += g.boolean() ? "e" : "E"; if (e < 0) t += "-"; else if (g.boolean()) t += "+"; t += std::to_string(abs(e)); if (ni + nf >= 3) g.nontrivial(); } else if (dot && ni + nf >= 3) g.nontrivial();
    size_t len = t.size(); std::string full = t; if (g.boolean()) full += std::string(1, g.pickc(" ,x;}]-")) + (g.boolean() ? "5" : "");
    Exact e(full, true); char *end = 0; double w = strtod(t.c_str(), 0); if (w != 0 && (fabs(w) < 1e-290 || fabs(w) > 1e290)) throw Discard(); g.note("text %s = %.17g", esc(full).c_str(), w);
    double r = zpl_str_to_f64(e.c(), &end); REQUIRE(fabs(r - w) <= fabs(w) * 1e-13, "parsed as %.17g, expected %.17g", r, w); REQUIRE(std::signbit(r) == std::signbit(w), "sign"); REQUIRE(end == e.c() + len, "parsing stopped at %ld, the number ends at %zu", (long)(end - e.c()), len);
    if (fabs(w) < 1e37 && (w == 0 || fabs(w) > 1e-37)) { float f = zpl_str_to_f32(e.c(), &end); REQUIRE(fabs((double)f - w) <= fabs(w) * 1.2e-7, "parsed as float %.9g, expected %.9g", f, w); REQUIRE(end == e.c() + len, "float end"); }
}
