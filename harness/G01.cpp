// G01: scalar math against the C library in double precision
// @fuzz-quick 4
// @fuzz-thorough 120
#include "zh.hpp"
#include <cmath>
#include <cfloat>
static const double EPS = 1.1920929e-7;
static float bitsf(zpl_u32 b) { float f; memcpy(&f, &b, 4); return f; }
static zpl_u32 fbits(float f) { zpl_u32 b; memcpy(&b, &f, 4); return b; }
static double bitsd(u64 b) { double f; memcpy(&f, &b, 8); return f; }
static float flt(Gen &g) {                                                        // every class of float, biased to where rounding decides
    float s = g.boolean() ? 1.f : -1.f;
    switch (g.u(10)) {
        case 0: return s * (float)g.u(20);
        case 1: return s * ((float)g.u(40) + 0.5f);
        case 2: { float b = ldexpf(1.f, (int)g.range(-30, 66)); int d = (int)g.range(-2, 2); return s * bitsf(fbits(b) + (zpl_u32)d); }
        case 3: { float b = (float)g.u(1 << 20) + (g.boolean() ? 0.5f : 0.f); int d = (int)g.range(-2, 2); return s * bitsf(fbits(b + 1.f) + (zpl_u32)d); }
        case 4: return s * (8388608.f + (float)g.range(-40, 40) / 2);
        case 5: return g.pick(std::vector<float>{0.f, -0.f, INFINITY, -INFINITY, NAN, FLT_MIN, -FLT_MIN, FLT_MAX, -FLT_MAX, 1e-45f, -1e-45f, 0.49999997f, -0.49999997f, 2147483648.f, -2147483648.f, 9.2233720e18f, 65504.f, 65519.996f, 65520.f});
        case 6: { float f = bitsf((zpl_u32)g.u(0xffffffffu)); return std::isnan(f) ? NAN : f; }                   // (quiet: the C library's pow distinguishes signalling ones)
        case 7: return s * (float)g.u(1000000) / 997.f;
        default: return s * (float)g.u(1u << 24) / (float)(1u << 24) * ldexpf(1.f, (int)g.range(-8, 8));
    }
}
static double dbl(Gen &g) {
    double s = g.boolean() ? 1. : -1.;
    switch (g.u(7)) {
        case 0: return flt(g);
        case 1: { double b = ldexp(1., (int)g.range(-30, 66)); u64 u; memcpy(&u, &b, 8); return s * bitsd(u + (u64)g.range(-2, 2)); }
        case 2: { double b = (double)g.u(1ull << 52) + (g.boolean() ? 0.5 : 0.); u64 u; memcpy(&u, &b, 8); return s * bitsd(u + (u64)g.range(-2, 2)); }
        case 3: return s * (4503599627370496. + (double)g.range(-40, 40) / 2);
        case 4: return g.pick(std::vector<double>{0., -0., (double)INFINITY, -(double)INFINITY, (double)NAN, DBL_MIN, DBL_MAX, -DBL_MAX, 0.49999999999999994, -0.49999999999999994, 9223372036854775808., -9223372036854775808., 0.99999999999999994, 1e300});
        case 5: return bitsd(g.u(~0ull));
        default: return s * (double)g.u(1000000000) / 997.;
    }
}
static float fin(Gen &g) { float f = flt(g); return std::isfinite(f) ? f : 1.5f; }
static float mid(Gen &g, float lim) { float f = flt(g); return std::isfinite(f) && fabsf(f) <= lim ? f : (float)g.range(-1000, 1000) / 1000.f * lim; }
static void same(const char *what, double x, double got, double want) { REQUIRE(got == want || (std::isnan(got) && std::isnan(want)), "%s(%.17g) is %.17g, expected %.17g", what, x, got, want); }
static void close(const char *what, double x, double y, float got, double want, double rel, double abs = 0) {
    if (std::isnan(want)) { REQUIRE(std::isnan(got), "%s(%.9g, %.9g) is %.9g, expected not a number", what, x, y, got); return; }
    if (std::isinf(got) || std::isinf(want)) { REQUIRE(std::signbit(want) == std::signbit(got) && fabs(want) >= FLT_MAX * (1 - 2 * rel) && fabs(got) >= FLT_MAX * (1 - 4 * rel), "%s(%.9g, %.9g) is %.9g, expected %.17g", what, x, y, got, want); return; }
    if (fabs(want) > FLT_MAX) { REQUIRE(std::isinf(got) || fabs(got) >= FLT_MAX * (1 - 4 * rel), "%s(%.9g, %.9g) is %.9g, expected %.17g", what, x, y, got, want); return; }
    REQUIRE(fabs(got - want) <= rel * fabs(want) + abs + 3e-45, "%s(%.9g, %.9g) is %.9g, expected %.17g", what, x, y, got, want);
}
PROPERTY(rounding, 1200000, 80000000, "a finite value with a fraction, or beyond the range of a 32-bit integer") {
    float x = flt(g); double d = dbl(g); g.note("%.9g, %.17g", x, d);
    same("zpl_floor", x, zpl_floor(x), floorf(x)); same("zpl_ceil", x, zpl_ceil(x), ceilf(x)); same("zpl_round", x, zpl_round(x), roundf(x));
    same("zpl_floor64", d, zpl_floor64(d), floor(d)); same("zpl_ceil64", d, zpl_ceil64(d), ceil(d)); same("zpl_round64", d, zpl_round64(d), round(d));
    if (!std::isnan(d)) { same("zpl_abs64", d, zpl_abs64(d), fabs(d)); same("zpl_sign64", d, zpl_sign64(d), d < 0 ? -1 : 1); }
    if (std::isfinite(d) && (d != floor(d) || fabs(d) > 2147483648.)) g.nontrivial();
}
PROPERTY(signs, 450000, 24000000, "the two arguments differ in sign") {
    float x = flt(g), y = flt(g); double dx = dbl(g), dy = dbl(g); g.note("%.9g %.9g %.17g %.17g", x, y, dx, dy); float r = zpl_copy_sign(x, y); double rd = zpl_copy_sign64(dx, dy);
    REQUIRE(fbits(r) == ((fbits(x) & 0x7fffffffu) | (fbits(y) & 0x80000000u)), "zpl_copy_sign(%.9g, %.9g) is %.9g", x, y, r); u64 a, b, c; memcpy(&a, &dx, 8); memcpy(&b, &dy, 8); memcpy(&c, &rd, 8); REQUIRE(c == ((a & ~(1ull << 63)) | (b & (1ull << 63))), "zpl_copy_sign64(%.17g, %.17g) is %.17g", dx, dy, rd);
    if (!std::isnan(x)) { same("zpl_sign", x, zpl_sign(x), x >= 0 ? 1 : -1); same("zpl_sign0", x, zpl_sign0(x), x == 0 ? 0 : x > 0 ? 1 : -1); { bool t = g.boolean(); float q = std::isnan(y) ? 1 : y; same("zpl_sign0 of an expression", t ? x : q, zpl_sign0(t ? x : q), (t ? x : q) == 0 ? 0 : (t ? x : q) > 0 ? 1 : -1); same("zpl_sign of an expression", t ? x : q, zpl_sign(t ? x : q), (t ? x : q) >= 0 ? 1 : -1); } same("zpl_abs", x, zpl_abs(x), fabsf(x)); }
    if (!std::isnan(x) && !std::isnan(y)) { float lo = std::min(x, y), hi = std::max(x, y), v = flt(g); g.note("%.9g", v); if (!std::isnan(v)) { float k = zpl_clamp(v, lo, hi); REQUIRE(k == (v < lo ? lo : v > hi ? hi : v), "clamping %.9g to %.9g..%.9g gives %.9g", v, lo, hi, k); float k1 = zpl_clamp01(v); REQUIRE(k1 == (v < 0 ? 0 : v > 1 ? 1 : v), "clamping %.9g to 0..1 gives %.9g", v, k1);
        REQUIRE(zpl_min(x, y) == lo && zpl_max(x, y) == hi && zpl_min3(x, y, v) == std::min(lo, v) && zpl_max3(x, y, v) == std::max(hi, v), "minimum or maximum of %.9g, %.9g, %.9g is wrong", x, y, v); REQUIRE(!!zpl_is_between(v, lo, hi) == (lo <= v && v <= hi) && !!zpl_is_between_limit(v, lo, hi) == (lo <= v && v < hi), "%.9g in %.9g..%.9g is wrong", v, lo, hi); } }
    if (std::signbit(x) != std::signbit(y)) g.nontrivial();
}
template <class T> static void modulo(Gen &g, T x, T y, T (*mod)(T, T), T (*rem)(T, T), double eps) {
    if (!std::isfinite(x) || !std::isfinite(y) || fabs((double)y) < 1e-18 || fabs((double)x) > 1e30 || fabs((double)(x / y)) > 1048576.) throw Discard();
    bool whole = x == floor((double)x) && y == floor((double)y) && fabs((double)x) < 4e6; double tol = whole ? 0 : 2 * eps * fabs((double)x) + 2 * eps * fabs((double)y); g.note("%.17g, %.17g", (double)x, (double)y);
    double m = mod(x, y), want = fmod((double)x, (double)y), ay = fabs((double)y), diff = fabs(m - want);
    REQUIRE(diff <= tol || fabs(diff - ay) <= tol * (whole ? 0 : 1) - (whole ? 1 : 0), "%.17g modulo %.17g is %.17g, expected %.17g", (double)x, (double)y, m, want); REQUIRE(m == 0 || std::signbit(m) == std::signbit((double)x), "%.17g modulo %.17g is %.17g, with the other sign", (double)x, (double)y, m); REQUIRE(fabs(m) <= ay, "%.17g modulo %.17g is %.17g, beyond the divisor", (double)x, (double)y, m);
    double r = rem(x, y), wr = remainder((double)x, (double)y), dr = fabs(r - wr); REQUIRE(fabs(r) <= ay / 2 + tol, "the remainder of %.17g by %.17g is %.17g, more than half the divisor", (double)x, (double)y, r); REQUIRE(dr <= tol || fabs(dr - ay) <= tol, "the remainder of %.17g by %.17g is %.17g, expected %.17g", (double)x, (double)y, r, wr);
    if (fabs((double)x) > ay) g.nontrivial();
}
PROPERTY(modulo, 900000, 64000000, "a dividend larger than the divisor") {
    if (g.boolean()) { bool ints = g.boolean(); float x = ints ? (float)g.range(-2000, 2000) : flt(g), y = ints ? (float)g.range(-60, 60) : flt(g); modulo<zpl_f32>(g, x, y, zpl_mod, zpl_remainder, EPS); }
    else { bool ints = g.boolean(); double x = ints ? (double)g.range(-2000, 2000) : dbl(g), y = ints ? (double)g.range(-60, 60) : dbl(g); modulo<zpl_f64>(g, x, y, zpl_mod64, zpl_remainder64, 2.3e-16); }
}
PROPERTY(angles, 600000, 32000000, "angles more than half a turn apart") {
    float a = mid(g, 10000.f), b = g.boolean() ? mid(g, 10000.f) : a + (float)g.range(-64, 64) * 0.5f; g.note("%.9g %.9g", a, b); double T = (float)ZPL_TAU, tol = 2e-6 + 3 * EPS * (fabs(a) + fabs(b));
    double d = zpl_angle_diff(a, b); REQUIRE(fabs(d) <= T / 2 + tol, "the difference between the angles %.9g and %.9g is %.9g, more than half a turn", a, b, d); double off = fabs(remainder((double)a + d - b, T)); REQUIRE(off <= tol, "turning %.9g by the difference %.9g does not give %.9g", a, d, b);
    float deg = fin(g); close("zpl_to_radians", deg, 0, zpl_to_radians(deg), fabs((double)deg * ZPL_TAU) > FLT_MAX ? (double)zpl_to_radians(deg) : deg * (M_PI / 180), 4 * EPS, 1e-44); close("zpl_to_degrees", deg, 0, zpl_to_degrees(deg), fabs((double)deg * 360) > FLT_MAX ? (double)zpl_to_degrees(deg) : deg * (180 / M_PI), 4 * EPS, 1e-44);
    if (fabs((double)b - a) > T / 2) g.nontrivial();
}
PROPERTY(functions, 1200000, 80000000, "a finite argument inside the function's domain") {
    float x = flt(g), y = flt(g); double X = x, Y = y; int f = (int)g.u(16); g.note("function %d of %.9g, %.9g", f, x, y);
    switch (f) {
        case 0: close("zpl_sqrt", x, 0, zpl_sqrt(x), sqrt(X), 2 * EPS); break;
        case 1: close("zpl_rsqrt", x, 0, zpl_rsqrt(x), x == 0 ? (double)(1.f / x) : 1 / sqrt(X), 3 * EPS); break;
        case 2: if (!(x > 1e-37f && x < 1e37f)) throw Discard(); close("zpl_quake_rsqrt", x, 0, zpl_quake_rsqrt(x), 1 / sqrt(X), 5e-6); break;
        case 3: if (!((x == 0 || fabsf(x) > 1e-15f) && fabsf(x) < 1e15f && (y == 0 || fabsf(y) > 1e-15f) && fabsf(y) < 1e15f)) throw Discard(); close("zpl_hypot", x, y, zpl_hypot(x, y), hypot(X, Y), 4 * EPS); break;
        case 4: close("zpl_sin", x, 0, zpl_sin(x), sin(X), 3 * EPS); break;
        case 5: close("zpl_cos", x, 0, zpl_cos(x), cos(X), 3 * EPS); break;
        case 6: close("zpl_tan", x, 0, zpl_tan(x), tan(X), 6 * EPS); break;
        case 7: if (g.boolean()) X = x = x / (1 + fabsf(x)); close("zpl_arcsin", x, 0, zpl_arcsin(x), asin(X), 4 * EPS); break;
        case 8: if (g.boolean()) X = x = x / (1 + fabsf(x)); close("zpl_arccos", x, 0, zpl_arccos(x), acos(X), 4 * EPS); break;
        case 9: close("zpl_arctan", x, 0, zpl_arctan(x), atan(X), 4 * EPS); break;
        case 10: close("zpl_arctan2", y, x, zpl_arctan2(y, x), atan2(Y, X), 4 * EPS); break;
        case 11: close("zpl_exp", x, 0, zpl_exp(x), exp(X), 4 * EPS); break;
        case 12: close("zpl_exp2", x, 0, zpl_exp2(x), exp2(X), std::isfinite(x) ? std::min(1e9, (fabs(X) + 4) * 2 * EPS) : EPS); break;
        case 13: close("zpl_log", x, 0, zpl_log(x), log(X), 4 * EPS); break;
        case 14: close("zpl_log2", x, 0, zpl_log2(x), log2(X), 5 * EPS); break;
        default: if (g.boolean()) { X = x = fabsf(x); } if (g.boolean()) Y = y = (float)g.range(-12, 12) / 2; close("zpl_pow", x, y, zpl_pow(x, y), pow(X, Y), 4 * EPS); }
    if (std::isfinite(x) && x != 0) g.nontrivial();
}
PROPERTY(interpolation, 600000, 32000000, "a parameter strictly between the ends") {
    float a = mid(g, 1e6f), b = mid(g, 1e6f), t = g.u(4) ? (float)g.u(1001) / 1000.f : mid(g, 4.f); g.note("%.9g %.9g %.9g", a, b, t); double A = a, B = b, T = t;
    double l = zpl_lerp(a, b, t); REQUIRE(fabs(l - (A * (1 - T) + B * T)) <= 4 * EPS * (fabs(A) * (1 + fabs(T)) + fabs(B * T)) + 5e-45, "between %.9g and %.9g at %.9g lies %.9g", a, b, t, l);
    if (a != b && fabs(B - A) > 1e-3 * std::max(fabs(A), fabs(B)) && fabs(B - A) > 1e-20) { double v = zpl_unlerp((float)l, a, b), w = ((double)(float)l - A) / (B - A); REQUIRE(fabs(v - w) <= 4 * EPS * fabs(w) + 1e-30, "%.9g between %.9g and %.9g is at %.9g, expected %.9g", l, a, b, v, w);
        if (t >= 0 && t <= 1) { double s = zpl_smooth_step(a, b, (float)l), r = zpl_smoother_step(a, b, (float)l), ws = w * w * (3 - 2 * w), wr = w * w * w * (w * (6 * w - 15) + 10); REQUIRE(fabs(s - ws) <= 4e-6, "the smooth step at %.9g is %.9g, expected %.9g", w, s, ws); REQUIRE(fabs(r - wr) <= 2e-5, "the smoother step at %.9g is %.9g, expected %.9g", w, r, wr); } }
    float x = (float)g.range(-1000, 1000) / 1000.f; g.note("%.9g", x); double e = zpl_fast_exp(x), e2 = zpl_fast_exp2(x), L = fabs(x * M_LN2); REQUIRE(fabs(e - exp((double)x)) <= pow(fabs(x), 6) / 500 + 1e-6, "the fast exponential of %.9g is %.9g", x, e); REQUIRE(fabs(e2 - exp2((double)x)) <= pow(L, 6) / 500 + 1e-6, "the fast power of two of %.9g is %.9g", x, e2);
    if (t > 0 && t < 1 && a != b) g.nontrivial();
}
static double half_value(unsigned h) { int s = h >> 15 & 1, e = h >> 10 & 31, m = h & 1023; double v = e == 0 ? ldexp(m, -24) : e == 31 ? (m ? (double)NAN : (double)INFINITY) : ldexp(1024 + m, e - 25); return s ? -v : v; }
PROPERTY(half_all, 4000, 20000, "every case: 256 consecutive half patterns") {
    unsigned blk = (unsigned)g.u(256); g.note("halves %04x..%04x", blk << 8, (blk << 8) + 255); g.nontrivial();
    for (unsigned h = blk << 8; h < (blk + 1) << 8; h++) { float f = zpl_half_to_float((zpl_half)h); double w = half_value(h); unsigned back = (unsigned short)zpl_float_to_half(f);
        if (std::isnan(w)) { REQUIRE(std::isnan(f), "the half %04x is %.9g, expected not a number", h, f); REQUIRE(std::isnan(half_value(back)), "not a number became the half %04x", back); } else { REQUIRE(f == w && std::signbit(f) == std::signbit(w), "the half %04x is %.9g, expected %.9g", h, f, w); REQUIRE(back == h, "the half %04x (%.9g) came back as %04x", h, f, back); } }
}
PROPERTY(half_rounding, 900000, 64000000, "a value that is not itself a half") {
    float x = flt(g); if (g.boolean()) { unsigned h = (unsigned)g.u(0x7bff); float mid = (float)((half_value(h) + half_value(h + 1)) / 2); if (h == 0x7bff) mid = 65520.f; x = bitsf(fbits(mid) + (zpl_u32)g.range(mid == 0 ? 0 : -1, 1)); if (g.boolean()) x = -x; }
    g.note("%.9g", x); unsigned h = (unsigned short)zpl_float_to_half(x); double v = half_value(h); if (std::isnan(x)) { REQUIRE(std::isnan(v), "not a number became the half %04x", h); return; }
    if (fabsf(x) >= 65520.f) { REQUIRE(std::isinf(v) && std::signbit(v) == std::signbit(x), "%.9g became the half %04x, expected infinity", x, h); return; }
    REQUIRE(std::isfinite(v), "%.9g became the half %04x", x, h); REQUIRE(v == 0 || std::signbit(v) == std::signbit(x), "%.9g became %.9g", x, v); double d = fabs(v - x), up = fabs(half_value(h + 1) - x), dn = (h & 0x7fff) ? fabs(half_value(h - 1) - x) : INFINITY; if ((h & 0x7fff) == 0x7bff) up = INFINITY;
    REQUIRE(d <= up && d <= dn, "%.9g became the half %04x (%.9g), which is not the nearest", x, h, v); if (v != x) g.nontrivial();
}
PROPERTY(constants, 200, 1000, "every case") {
    static const struct { const char *n; double v, w; } c[] = {{"EPSILON", ZPL_EPSILON, 1.1920928955078125e-7}, {"ZERO", ZPL_ZERO, 0}, {"ONE", ZPL_ONE, 1}, {"TWO_THIRDS", ZPL_TWO_THIRDS, 2. / 3}, {"TAU", ZPL_TAU, 2 * M_PI}, {"PI", ZPL_PI, M_PI}, {"ONE_OVER_TAU", ZPL_ONE_OVER_TAU, 0.5 / M_PI}, {"ONE_OVER_PI", ZPL_ONE_OVER_PI, 1 / M_PI}, {"TAU_OVER_2", ZPL_TAU_OVER_2, M_PI}, {"TAU_OVER_4", ZPL_TAU_OVER_4, M_PI / 2}, {"TAU_OVER_8", ZPL_TAU_OVER_8, M_PI / 4}, {"E", ZPL_E, M_E}, {"SQRT_TWO", ZPL_SQRT_TWO, sqrt(2.)}, {"SQRT_THREE", ZPL_SQRT_THREE, sqrt(3.)}, {"SQRT_FIVE", ZPL_SQRT_FIVE, sqrt(5.)}, {"LOG_TWO", ZPL_LOG_TWO, log(2.)}, {"LOG_TEN", ZPL_LOG_TEN, log(10.)}};
    auto &k = c[g.u(sizeof c / sizeof *c)]; g.note("%s", k.n); g.nontrivial(); REQUIRE(fabs(k.v - k.w) <= EPS * k.w, "the constant ZPL_%s is %.9g, expected %.9g", k.n, k.v, k.w); int i = (int)g.range(-100, 100); REQUIRE(zpl_square(i) == i * i && zpl_cube(i + 1) == (i + 1) * (i + 1) * (i + 1), "square or cube of %d is wrong", i);
}
