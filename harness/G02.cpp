// G02: vectors, matrices, transforms, quaternions, interpolation and culling against linear algebra in double precision
// @fuzz-quick 4
// @fuzz-thorough 120
#include "zh.hpp"
#include <cmath>
#include <cfloat>
static const double EPS = 1.1920929e-7;
typedef std::vector<double> V;
struct M { int n; double a[4][4]; };                                              // a[row][column]
static float comp(Gen &g) { switch (g.u(6)) { case 0: return (float)g.range(-8, 8); case 1: return g.boolean() ? 0.f : 1.f; case 2: return (float)g.range(-1000, 1000) / 64.f; default: return (float)g.range(-1000000, 1000000) / 250000.f; } }
static double dot(const V &a, const V &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
static double mag(const V &a) { return sqrt(dot(a, a)); }
static V cross(const V &a, const V &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static V scale(V a, double s) { for (auto &x : a) x *= s; return a; }
static V add(V a, const V &b, double s = 1) { for (size_t i = 0; i < a.size(); i++) a[i] += s * b[i]; return a; }
static V unit(const V &a) { return scale(a, 1 / mag(a)); }
static V vd(const float *p, int n) { return V(p, p + n); }
static V vd(zpl_vec2 v) { return vd(v.e, 2); } static V vd(zpl_vec3 v) { return vd(v.e, 3); } static V vd(zpl_vec4 v) { return vd(v.e, 4); } static V vd(zpl_quat q) { return vd(q.e, 4); }
static zpl_vec2 v2(Gen &g) { float x = comp(g), y = comp(g); return zpl_vec2f(x, y); }
static zpl_vec3 v3(Gen &g) { float x = comp(g), y = comp(g), z = comp(g); return zpl_vec3f(x, y, z); }
static zpl_vec4 v4(Gen &g) { float x = comp(g), y = comp(g), z = comp(g), w = comp(g); return zpl_vec4f(x, y, z, w); }
static std::string show(const V &v) { std::string s = "("; char b[40]; for (size_t i = 0; i < v.size(); i++) { snprintf(b, sizeof b, "%s%.9g", i ? ", " : "", v[i]); s += b; } return s + ")"; }
static void same(const char *what, const V &got, const V &want, double tol) { for (size_t i = 0; i < want.size(); i++) REQUIRE(std::isfinite(got[i]) && fabs(got[i] - want[i]) <= tol, "%s is %s, expected %s", what, show(got).c_str(), show(want).c_str()); }
static void same(const char *what, double got, double want, double tol) { REQUIRE(std::isfinite(got) && fabs(got - want) <= tol, "%s is %.9g, expected %.9g", what, got, want); }
static V axis_of(Gen &g) { for (;;) { V a; switch (g.u(3)) { case 0: { a = V(3, 0.); a[g.u(3)] = g.boolean() ? 1 : -1; return a; } case 1: a = {(double)g.range(-3, 3), (double)g.range(-3, 3), (double)g.range(-3, 3)}; break; default: a = {(float)g.range(-1000, 1000) / 100.f, (float)g.range(-1000, 1000) / 100.f, (float)g.range(-1000, 1000) / 100.f}; } if (mag(a) > 0.05) return a; if (g.u(4) == 0) return {0, 0, 1}; } }
static float angle_of(Gen &g) { return g.boolean() ? (float)g.range(-8, 8) * (float)(M_PI / 4) : (float)g.range(-7000, 7000) / 1000.f; }
static zpl_vec3 f3(const V &v) { return zpl_vec3f((float)v[0], (float)v[1], (float)v[2]); }
static V rodrigues(const V &axis, double t, const V &v) { V k = unit(axis); return add(add(scale(v, cos(t)), cross(k, v), sin(t)), k, dot(k, v) * (1 - cos(t))); }

template <class T> static void poison(T &t) { memset((void *)&t, 0x5a, sizeof t); }   // what a function leaves unwritten shows
// ---- vectors
#define VECTOR(N) \
static void vector##N(Gen &g) { zpl_vec##N a = v##N(g), b = v##N(g), d; float s = comp(g); V A = vd(a), B = vd(b); if (s == 0) s = 2; double S = s, m = mag(A) + mag(B); g.note("%s %s %.9g", show(A).c_str(), show(B).c_str(), s); \
    poison(d), zpl_vec##N##_add(&d, a, b); same("the sum", vd(d), add(A, B), EPS * m); poison(d), zpl_vec##N##_sub(&d, a, b); same("the difference", vd(d), add(A, B, -1), EPS * m); poison(d), zpl_vec##N##_mul(&d, a, s); same("the multiple", vd(d), scale(A, S), EPS * m * fabs(S)); poison(d), zpl_vec##N##_div(&d, a, s); same("the quotient", vd(d), scale(A, 1 / S), 2 * EPS * m / fabs(S)); \
    d = a; zpl_vec##N##_addeq(&d, b); same("the sum in place", vd(d), add(A, B), EPS * m); d = a; zpl_vec##N##_subeq(&d, b); same("the difference in place", vd(d), add(A, B, -1), EPS * m); d = a; zpl_vec##N##_muleq(&d, s); same("the multiple in place", vd(d), scale(A, S), EPS * m * fabs(S)); d = a; zpl_vec##N##_diveq(&d, s); same("the quotient in place", vd(d), scale(A, 1 / S), 2 * EPS * m / fabs(S)); \
    d = a; zpl_vec##N##_add(&d, d, b); same("the sum into an operand", vd(d), add(A, B), EPS * m); d = b; zpl_vec##N##_sub(&d, a, d); same("the difference into an operand", vd(d), add(A, B, -1), EPS * m); \
    same("the dot product", zpl_vec##N##_dot(a, b), dot(A, B), 8 * EPS * mag(A) * mag(B)); same("the squared magnitude", zpl_vec##N##_mag2(a), dot(A, A), 8 * EPS * dot(A, A)); same("the magnitude", zpl_vec##N##_mag(a), mag(A), 8 * EPS * mag(A)); \
    if (mag(A) > 0) { poison(d), zpl_vec##N##_norm(&d, a); same("the unit vector", vd(d), unit(A), 10 * EPS); d = a; zpl_vec##N##_norm(&d, d); same("the unit vector in place", vd(d), unit(A), 10 * EPS); poison(d), zpl_vec##N##_norm0(&d, a); same("the unit vector (or zero)", vd(d), unit(A), 10 * EPS); } else { poison(d), zpl_vec##N##_norm0(&d, a); same("the unit vector of zero", vd(d), V(N, 0.), 0); } \
    d = zpl_vec##N##f_zero(); same("the zero vector", vd(d), V(N, 0.), 0); d = zpl_vec##N##fv(a.e); same("the vector of an array", vd(d), A, 0); \
    float t = (float)g.range(-4, 12) / 8.f; poison(d), zpl_vec##N##_lerp(&d, a, b, t); same("the interpolated vector", vd(d), add(scale(A, 1 - (double)t), B, t), 6 * EPS * m * (1 + fabs(t))); \
    REQUIRE((a == b) == (A == B) && (a != b) == (A != B), "comparing %s and %s is wrong", show(A).c_str(), show(B).c_str()); same("-a", vd(-a), scale(A, -1), 0); same("+a", vd(+a), A, 0); same("a + b", vd(a + b), add(A, B), EPS * m); same("a * s", vd(a * s), scale(A, S), EPS * m * fabs(S)); same("s * a", vd(s * a), scale(A, S), EPS * m * fabs(S)); same("a / s", vd(a / s), scale(A, 1 / S), 3 * EPS * m / fabs(S)); \
    V H = A; for (int i = 0; i < N; i++) H[(size_t)i] *= B[(size_t)i]; same("a * b", vd(a * b), H, EPS * m * m); d = a; d += b; same("a += b", vd(d), add(A, B), EPS * m); d = a; d *= s; same("a *= s", vd(d), scale(A, S), EPS * m * fabs(S)); d = a; d /= s; same("a /= s", vd(d), scale(A, 1 / S), 3 * EPS * m / fabs(S)); \
    if (dot(A, B) != 0) g.nontrivial(); }
VECTOR(2) VECTOR(4)
VECTOR(3)
PROPERTY(vectors, 300000, 8000000, "vectors that are not orthogonal") { switch (g.u(3)) { case 0: vector2(g); break; case 1: vector3(g); break; default: vector4(g); } }
PROPERTY(products_optics, 300000, 8000000, "a ray that hits the surface at an angle") {
    { zpl_vec2 a = v2(g), b = v2(g), c = v2(g); V A = vd(a), B = vd(b), C = vd(c); float d; poison(d), zpl_vec2_cross(&d, a, b); same("the cross product", d, A[0] * B[1] - A[1] * B[0], 4 * EPS * mag(A) * mag(B)); same("the side", zpl_vec2_side(a, b, c), (B[0] - A[0]) * (C[1] - A[1]) - (C[0] - A[0]) * (B[1] - A[1]), 8 * EPS * (mag(A) + mag(B)) * (mag(A) + mag(C))); same("the largest component", zpl_vec2_max(a), std::max(A[0], A[1]), 0); double ar = A[1] < 0.0001f ? 0 : A[0] / A[1]; same("the aspect ratio", zpl_vec2_aspect_ratio(a), ar, 2 * EPS * fabs(ar)); same("a - b", vd(a - b), add(A, B, -1), EPS * (mag(A) + mag(B))); }
    zpl_vec3 a = v3(g), b = v3(g), d; V A = vd(a), B = vd(b); poison(d), zpl_vec3_cross(&d, a, b); same("the cross product", vd(d), cross(A, B), 4 * EPS * mag(A) * mag(B)); same("the largest component", zpl_vec3_max(a), std::max({A[0], A[1], A[2]}), 0);
    V n, i; bool two = g.boolean(); if (two) { float p = angle_of(g), q = angle_of(g); n = {cos(p), sin(p)}; i = {cos(q), sin(q)}; } else { n = unit(axis_of(g)); i = unit(axis_of(g)); } if (dot(n, i) > 0) n = scale(n, -1); float eta = g.boolean() ? (float)g.range(1, 30) / 10.f : 1.f; g.note("%s at a surface facing %s, ratio %.9g", show(i).c_str(), show(n).c_str(), eta);
    V refl, refr; if (two) { zpl_vec2 r, N = zpl_vec2f((float)n[0], (float)n[1]), I = zpl_vec2f((float)i[0], (float)i[1]); poison(r), zpl_vec2_reflect(&r, I, N); refl = vd(r); poison(r), zpl_vec2_refract(&r, I, N, eta); refr = vd(r); } else { zpl_vec3 r; poison(r), zpl_vec3_reflect(&r, f3(i), f3(n)); refl = vd(r); poison(r), zpl_vec3_refract(&r, f3(i), f3(n), eta); refr = vd(r); }
    double c = dot(n, i), k = 1 - (double)eta * eta * (1 - c * c); same("the reflected ray", refl, add(i, n, -2 * c), 20 * EPS); if (fabs(k) < 1e-3) throw Discard(); if (k < 0) { same("the totally reflected ray's refraction", refr, V(n.size(), 0.), 0); return; }
    same("the length of the refracted ray", mag(refr), 1, 2e-4); V ti = add(i, n, -c), tr = add(refr, n, -dot(refr, n)); same("the tangential part of the refracted ray", tr, scale(ti, eta), 2e-4); REQUIRE(dot(refr, n) < 0, "the refracted ray %s leaves on the side it came from", show(refr).c_str()); if (mag(ti) > 0.01) g.nontrivial();
}
// what is put in is what every view of the value shows
static void shown(const char *what, const void *o, size_t size, const float *want, int n) { REQUIRE(size == sizeof(float) * (size_t)n, "%s takes %zu bytes, not %zu", what, size, sizeof(float) * (size_t)n); REQUIRE(memcmp(o, want, size) == 0, "%s is %s, made of %s", what, show(vd((const float *)o, n)).c_str(), show(vd(want, n)).c_str()); }
#define SHOWN(x, n) do { auto value_ = (x); shown(#x, &value_, sizeof value_, e, n); } while (0)
#define PART(x, i, n) do { auto value_ = (x); shown(#x, &value_, sizeof value_, e + (i), n); } while (0)
PROPERTY(construction, 60000, 2000000, "components that all differ") {
    float e[16]; bool diff = true; for (int i = 0; i < 16; i++) { e[i] = comp(g); for (int j = 0; j < i; j++) if (e[j] == e[i]) diff = false; } if (diff) g.nontrivial();
    zpl_vec2 a = zpl_vec2f(e[0], e[1]); zpl_vec3 b = zpl_vec3f(e[0], e[1], e[2]); zpl_vec4 c = zpl_vec4f(e[0], e[1], e[2], e[3]); zpl_quat q = zpl_quatf(e[0], e[1], e[2], e[3]);
    SHOWN(a, 2); SHOWN(b, 3); SHOWN(c, 4); SHOWN(q, 4); SHOWN(zpl_vec2fv(e), 2); SHOWN(zpl_vec3fv(e), 3); SHOWN(zpl_vec4fv(e), 4); SHOWN(zpl_quatfv(e), 4); zpl_vec2 z2 = zpl_vec2f_zero(); zpl_vec3 z3 = zpl_vec3f_zero(); zpl_vec4 z4 = zpl_vec4f_zero(); float none[4] = {0, 0, 0, 0}; shown("zpl_vec2f_zero()", &z2, sizeof z2, none, 2); shown("zpl_vec3f_zero()", &z3, sizeof z3, none, 3); shown("zpl_vec4f_zero()", &z4, sizeof z4, none, 4);
    PART(a.x, 0, 1); PART(a.y, 1, 1); PART(a.s, 0, 1); PART(a.t, 1, 1); PART(a.e[0], 0, 1); PART(a.e[1], 1, 1);
    PART(b.x, 0, 1); PART(b.y, 1, 1); PART(b.z, 2, 1); PART(b.r, 0, 1); PART(b.g, 1, 1); PART(b.b, 2, 1); PART(b.s, 0, 1); PART(b.t, 1, 1); PART(b.p, 2, 1); PART(b.xy, 0, 2); PART(b.st, 0, 2); for (int i = 0; i < 3; i++) PART(b.e[i], i, 1);
    PART(c.x, 0, 1); PART(c.y, 1, 1); PART(c.z, 2, 1); PART(c.w, 3, 1); PART(c.r, 0, 1); PART(c.g, 1, 1); PART(c.b, 2, 1); PART(c.a, 3, 1); PART(c.s, 0, 1); PART(c.t, 1, 1); PART(c.p, 2, 1); PART(c.q, 3, 1); PART(c.xy, 0, 2); PART(c.zw, 2, 2); PART(c.st, 0, 2); PART(c.pq, 2, 2); PART(c.xyz, 0, 3); PART(c.rgb, 0, 3); for (int i = 0; i < 4; i++) PART(c.e[i], i, 1);
    PART(q.x, 0, 1); PART(q.y, 1, 1); PART(q.z, 2, 1); PART(q.w, 3, 1); PART(q.xyz, 0, 3); PART(q.xyzw, 0, 4); for (int i = 0; i < 4; i++) PART(q.e[i], i, 1);
    zpl_plane p; memcpy(&p, e, std::min(sizeof p, sizeof e)); SHOWN(p, 4); PART(p.a, 0, 1); PART(p.b, 1, 1); PART(p.c, 2, 1); PART(p.d, 3, 1); PART(p.n, 0, 3); PART(p.xyzw, 0, 4); for (int i = 0; i < 4; i++) PART(p.e[i], i, 1);
    REQUIRE(sizeof(zpl_frustum) == 6 * 4 * sizeof(float), "a frustum takes %zu bytes", sizeof(zpl_frustum));
    zpl_mat2 m2; memcpy(&m2, e, std::min(sizeof m2, sizeof e)); SHOWN(m2, 4); PART(m2.x, 0, 2); PART(m2.y, 2, 2); for (int i = 0; i < 2; i++) PART(m2.col[i], 2 * i, 2); for (int i = 0; i < 4; i++) PART(m2.e[i], i, 1);
    zpl_mat3 m3; memcpy(&m3, e, std::min(sizeof m3, sizeof e)); SHOWN(m3, 9); PART(m3.x, 0, 3); PART(m3.y, 3, 3); PART(m3.z, 6, 3); for (int i = 0; i < 3; i++) PART(m3.col[i], 3 * i, 3); for (int i = 0; i < 9; i++) PART(m3.e[i], i, 1);
    zpl_mat4 m4; memcpy(&m4, e, std::min(sizeof m4, sizeof e)); SHOWN(m4, 16); PART(m4.x, 0, 4); PART(m4.y, 4, 4); PART(m4.z, 8, 4); PART(m4.w, 12, 4); for (int i = 0; i < 4; i++) PART(m4.col[i], 4 * i, 4); for (int i = 0; i < 16; i++) PART(m4.e[i], i, 1);
    auto at = [&](const char *what, const void *got, const void *want) { REQUIRE(got == want, "%s is another object", what); };
    float f2[2][2], f3_[3][3], f4[4][4]; at("zpl_mat2_f", zpl_mat2_f(f2), f2); at("zpl_mat3_f", zpl_mat3_f(f3_), f3_); at("zpl_mat4_f", zpl_mat4_f(f4), f4); at("zpl_mat2_v", zpl_mat2_v(m2.col), &m2); at("zpl_mat3_v", zpl_mat3_v(m3.col), &m3); at("zpl_mat4_v", zpl_mat4_v(m4.col), &m4);
    at("zpl_float22_m", zpl_float22_m(&m2), &m2); at("zpl_float33_m", zpl_float33_m(&m3), &m3); at("zpl_float44_m", zpl_float44_m(&m4), &m4); at("zpl_float22_v", zpl_float22_v(m2.col), &m2); at("zpl_float33_v", zpl_float33_v(m3.col), &m3); at("zpl_float44_v", zpl_float44_v(m4.col), &m4); at("zpl_float22_4", zpl_float22_4(m2.e), &m2); at("zpl_float33_9", zpl_float33_9(m3.e), &m3); at("zpl_float44_16", zpl_float44_16(m4.e), &m4);
    zpl_vec2 lo = zpl_vec2f(e[4], e[5]), hi = zpl_vec2f(e[6], e[7]); zpl_vec3 lo3 = zpl_vec3f(e[4], e[5], e[6]), hi3 = zpl_vec3f(e[7], e[8], e[9]); { auto r = zpl_rect2f(lo, hi); shown("zpl_rect2f", &r, sizeof r, e + 4, 4); PART(r.pos, 4, 2); PART(r.dim, 6, 2); } { auto r = zpl_rect3f(lo3, hi3); shown("zpl_rect3f", &r, sizeof r, e + 4, 6); PART(r.pos, 4, 3); PART(r.dim, 7, 3); }
    { auto r = zpl_aabb2f(e[4], e[5], e[6], e[7]); shown("zpl_aabb2f", &r, sizeof r, e + 4, 4); PART(r.min, 4, 2); PART(r.max, 6, 2); } { auto r = zpl_aabb3f(e[4], e[5], e[6], e[7], e[8], e[9]); shown("zpl_aabb3f", &r, sizeof r, e + 4, 6); PART(r.min, 4, 3); PART(r.max, 7, 3); }
}
// ---- matrices
static M md(const float *e, int n) { M m; m.n = n; for (int c = 0; c < n; c++) for (int r = 0; r < n; r++) m.a[r][c] = e[c * n + r]; return m; }
static M mul(const M &x, const M &y) { M m; m.n = x.n; for (int r = 0; r < x.n; r++) for (int c = 0; c < x.n; c++) { m.a[r][c] = 0; for (int k = 0; k < x.n; k++) m.a[r][c] += x.a[r][k] * y.a[k][c]; } return m; }
static V mul(const M &x, const V &v) { V o((size_t)x.n, 0.); for (int r = 0; r < x.n; r++) for (int c = 0; c < x.n; c++) o[(size_t)r] += x.a[r][c] * v[(size_t)c]; return o; }
static double norm(const M &x) { double s = 0; for (int r = 0; r < x.n; r++) for (int c = 0; c < x.n; c++) s += x.a[r][c] * x.a[r][c]; return sqrt(s); }
static double det(const M &x) { if (x.n == 1) return x.a[0][0]; double s = 0; for (int c = 0; c < x.n; c++) { M k; k.n = x.n - 1; for (int r = 1; r < x.n; r++) for (int j = 0, q = 0; j < x.n; j++) if (j != c) k.a[r - 1][q++] = x.a[r][j]; s += (c & 1 ? -1 : 1) * x.a[0][c] * det(k); } return s; }
static M inverse(const M &x) { M o; o.n = x.n; double d = det(x); for (int r = 0; r < x.n; r++) for (int c = 0; c < x.n; c++) { M k; k.n = x.n - 1; for (int i = 0, p = 0; i < x.n; i++) if (i != r) { for (int j = 0, q = 0; j < x.n; j++) if (j != c) k.a[p][q++] = x.a[i][j]; p++; } o.a[c][r] = ((r + c) & 1 ? -1 : 1) * det(k) / d; } return o; }
static M eye(int n) { M m; m.n = n; for (int r = 0; r < n; r++) for (int c = 0; c < n; c++) m.a[r][c] = r == c; return m; }
static void same(const char *what, const M &got, const M &want, double tol) { for (int r = 0; r < want.n; r++) for (int c = 0; c < want.n; c++) REQUIRE(std::isfinite(got.a[r][c]) && fabs(got.a[r][c] - want.a[r][c]) <= tol, "%s has %.9g in row %d, column %d, expected %.9g", what, got.a[r][c], r, c, want.a[r][c]); }
static M transposed(const M &x) { M o = x; for (int r = 0; r < x.n; r++) for (int c = 0; c < x.n; c++) o.a[r][c] = x.a[c][r]; return o; }
static M plus(M x, const M &y, double s) { for (int r = 0; r < x.n; r++) for (int c = 0; c < x.n; c++) x.a[r][c] += s * y.a[r][c]; return x; }
static M times(M x, double s) { for (int r = 0; r < x.n; r++) for (int c = 0; c < x.n; c++) x.a[r][c] *= s; return x; }
template <class T> static T rnd(Gen &g, int n) { T m; int kind = (int)g.u(4); for (int i = 0; i < n * n; i++) m.e[i] = kind == 0 ? (float)(i % (n + 1) == 0) : kind == 1 ? (float)g.range(-4, 4) : comp(g); if (kind == 0) m.e[g.u((u64)(n * n))] = comp(g); return m; }
template <class T> static std::string shows(const T &m, int n) { return show(vd(m.e, n * n)); }
#define MATRIX(N, DET) \
static void matrix##N(Gen &g) { typedef zpl_mat##N T; T a = rnd<T>(g, N), b = rnd<T>(g, N), o; zpl_vec##N v = v##N(g), w; M A = md(a.e, N), B = md(b.e, N); V W = vd(v); g.note("%s %s %s", shows(a, N).c_str(), shows(b, N).c_str(), show(W).c_str()); double tol = 8 * EPS * norm(A) * norm(B); \
    poison(o), zpl_mat##N##_mul(&o, &a, &b); same("the product", md(o.e, N), mul(A, B), tol); o = a; zpl_mat##N##_mul(&o, &o, &b); same("the product into the left factor", md(o.e, N), mul(A, B), tol); o = b; zpl_mat##N##_mul(&o, &a, &o); same("the product into the right factor", md(o.e, N), mul(A, B), tol); o = a; zpl_mat##N##_mul(&o, &o, &o); same("the square in place", md(o.e, N), mul(A, A), 8 * EPS * norm(A) * norm(A)); same("the operator's product", md((a * b).e, N), mul(A, B), tol); o = a; o *= b; same("the operator's product in place", md(o.e, N), mul(A, B), tol); \
    poison(w), zpl_mat##N##_mul_vec##N(&w, &a, v); same("the matrix times the vector", vd(w), mul(A, W), 8 * EPS * norm(A) * mag(W)); same("the operator's matrix times vector", vd(a * v), mul(A, W), 8 * EPS * norm(A) * mag(W)); \
    o = a; zpl_mat##N##_transpose(&o); same("the transpose", md(o.e, N), transposed(A), 0); poison(o), zpl_mat##N##_identity(&o); same("the identity", md(o.e, N), eye(N), 0); { Exact x(sizeof(T), 0x5a); zpl_mat##N##_copy((T *)x.p, &a); same("the copy", md((float *)x.p, N), A, 0); } \
    same("the operator's sum", md((a + b).e, N), plus(A, B, 1), EPS * (norm(A) + norm(B))); same("the operator's difference", md((a - b).e, N), plus(A, B, -1), EPS * (norm(A) + norm(B))); same("the operator's multiple", md((a * 3.f).e, N), times(A, 3), EPS * 3 * norm(A)); same("the operator's quotient", md((a / 4.f).e, N), times(A, .25), EPS * norm(A)); \
    DET; double d = det(A), n = norm(A), c = pow(n, N) / fabs(d); if (!(EPS * c < 1e-3)) return; poison(o), zpl_mat##N##_inverse(&o, &a); same("the inverse", md(o.e, N), inverse(A), 60 * EPS * pow(n, N - 1) / fabs(d) * (1 + c)); if (A.a[0][1] != A.a[1][0]) g.nontrivial(); }
MATRIX(2, same("the determinant", zpl_mat2_determinate(&a), det(A), 20 * EPS * pow(norm(A), 2)))
MATRIX(3, same("the determinant", zpl_mat3_determinate(&a), det(A), 20 * EPS * pow(norm(A), 3)))
MATRIX(4, (void)0)
PROPERTY(matrices, 300000, 8000000, "an invertible matrix that is not symmetric") { switch (g.u(3)) { case 0: matrix2(g); break; case 1: matrix3(g); break; default: matrix4(g); } }
// ---- transforms
static V act(const zpl_mat4 &m, const V &p, double w = 1) { V h = p; h.push_back(w); return mul(md(m.e, 4), h); }
static V ndc(const zpl_mat4 &m, const V &p) { V h = act(m, p); return {h[0] / h[3], h[1] / h[3], h[2] / h[3]}; }
PROPERTY(transforms, 300000, 8000000, "a rotation about an axis that is no coordinate axis") {
    zpl_mat4 m, o; V t = vd(v3(g)), s = vd(v3(g)), p = vd(v3(g)), ax = axis_of(g); float an = angle_of(g), f = comp(g); g.note("translate %s, scale %s, rotate %.9g about %s, point %s", show(t).c_str(), show(s).c_str(), an, show(ax).c_str(), show(p).c_str());
    double T = 20 * EPS * (1 + mag(p) + mag(t)) , P = 20 * EPS * (1 + mag(p)) * (1 + mag(s) + fabs(f)); auto xyz = [](V h) { h.pop_back(); return h; };
    poison(m), zpl_mat4_to_translate(&m, f3(t)); same("the translated point", act(m, p), [&] { V r = add(p, t); r.push_back(1); return r; }(), T); poison(m), zpl_mat4_to_scale(&m, f3(s)); same("the scaled point", xyz(act(m, p)), {p[0] * s[0], p[1] * s[1], p[2] * s[2]}, P); poison(m), zpl_mat4_to_scalef(&m, f); same("the uniformly scaled point", act(m, p), {p[0] * f, p[1] * f, p[2] * f, 1}, P);
    poison(m), zpl_mat4_to_rotate(&m, f3(ax), an); V r = rodrigues(ax, an, p); same("the rotated point", xyz(act(m, p)), r, 30 * EPS * (1 + mag(p))); same("the rotated point's weight", act(m, p)[3], 1, 0); poison(o), zpl_mat4_axis_angle(&o, f3(ax), an); same("the rotation", md(o.e, 4), md(m.e, 4), 1e-6);
    zpl_mat4 k = rnd<zpl_mat4>(g, 4); M K = md(k.e, 4); double KT = 60 * EPS * norm(K) * (1 + mag(t) + mag(s) + fabs(f)); o = k; zpl_mat4_translate(&o, f3(t)); zpl_mat4_to_translate(&m, f3(t)); same("the matrix with a translation appended", md(o.e, 4), mul(K, md(m.e, 4)), KT); o = k; zpl_mat4_scale(&o, f3(s)); zpl_mat4_to_scale(&m, f3(s)); same("the matrix with a scaling appended", md(o.e, 4), mul(K, md(m.e, 4)), KT); o = k; zpl_mat4_scalef(&o, f); zpl_mat4_to_scalef(&m, f); same("the matrix with a uniform scaling appended", md(o.e, 4), mul(K, md(m.e, 4)), KT); o = k; zpl_mat4_rotate(&o, f3(ax), an); zpl_mat4_to_rotate(&m, f3(ax), an); same("the matrix with a rotation appended", md(o.e, 4), mul(K, md(m.e, 4)), KT);
    if ((ax[0] != 0) + (ax[1] != 0) + (ax[2] != 0) > 1 && sin(an) != 0) g.nontrivial();
}
PROPERTY(projections, 300000, 8000000, "a view volume that is not symmetric or not square") {
    auto dist = [&] { return (float)g.range(1, 400) / 8.f; }; float l = comp(g), r = l + dist(), b = comp(g), t = b + dist(), zn = dist(), zf = zn + dist(), fovy = (float)g.range(10, 290) / 100.f, asp = (float)g.range(20, 300) / 100.f; g.note("%.9g..%.9g, %.9g..%.9g, %.9g..%.9g; field of view %.9g, aspect %.9g", l, r, b, t, zn, zf, fovy, asp); zpl_mat4 m; int e = (int)g.u(8); double X = e & 1 ? 1 : -1, Y = e & 2 ? 1 : -1, x = e & 1 ? r : l, y = e & 2 ? t : b, z = e & 4 ? zf : zn, Zg = e & 4 ? 1 : -1, Zd = e & 4 ? 1 : 0;
    double big = 1 + (fabs(l) + fabs(r)) / (r - l) + (fabs(b) + fabs(t)) / (t - b) + (zn + zf) / (zf - zn), tol = 30 * EPS * big;
    poison(m), zpl_mat4_ortho2d(&m, l, r, b, t); same("the flat projection of a corner", ndc(m, {x, y, -z}), {X, Y, z}, tol + 4 * EPS * z); poison(m), zpl_mat4_ortho2d_dx(&m, l, r, b, t); same("the flat projection (DX) of a corner", ndc(m, {x, y, -z}), {X, Y, z}, tol + 4 * EPS * z); poison(m), zpl_mat4_ortho3d(&m, l, r, b, t, zn, zf); same("the orthographic projection of a corner", ndc(m, {x, y, -z}), {X, Y, Zg}, tol); poison(m), zpl_mat4_ortho3d_dx(&m, l, r, b, t, zn, zf); same("the orthographic projection (DX) of a corner", ndc(m, {x, y, -z}), {X, Y, Zd}, tol);
    double h = tan((double)fovy / 2) * z, w = h * asp, n = tan((double)fovy / 2) * zn, bigp = 60 * EPS * (1 + zf / (zf - zn)) * (1 + 1 / fabs(cos((double)fovy / 2))); poison(m), zpl_mat4_perspective(&m, fovy, asp, zn, zf); same("the perspective projection of a corner", ndc(m, {X * w, Y * h, -z}), {X, Y, Zg}, bigp * 4); poison(m), zpl_mat4_perspective_dx(&m, fovy, asp, zn, zf); same("the perspective projection (DX) of a corner", ndc(m, {X * w, Y * h, -z}), {X, Y, Zd}, bigp * 4); (void)n;
    poison(m), zpl_mat4_infinite_perspective(&m, fovy, asp, zn); same("the infinite perspective projection", ndc(m, {X * w, Y * h, -z}), {X, Y, 1 - 2 * zn / z}, bigp * 4); poison(m), zpl_mat4_infinite_perspective_dx(&m, fovy, asp, zn); same("the infinite perspective projection (DX)", ndc(m, {X * w, Y * h, -z}), {X, Y, 1 - zn / z}, bigp * 4); if (l != -r || asp != 1) g.nontrivial();
}
PROPERTY(look_at, 300000, 8000000, "a view direction that is not along a coordinate axis") {
    V eye3 = vd(v3(g)), dir = axis_of(g), up = axis_of(g), p = vd(v3(g)); V c = add(eye3, dir); for (auto &x : c) x = (float)x; dir = add(c, eye3, -1); if (mag(cross(unit(dir), unit(up))) < 0.05 || mag(dir) < 0.05) throw Discard(); g.note("from %s to %s, up %s", show(eye3).c_str(), show(c).c_str(), show(up).c_str()); zpl_mat4 m; double d = mag(dir), tol = 400 * EPS * (1 + mag(eye3) + d + mag(p)); bool lh = g.boolean(); (lh ? zpl_mat4_look_at_lh : zpl_mat4_look_at)(&m, f3(eye3), f3(c), f3(up));
    same("the eye", act(m, eye3), {0, 0, 0, 1}, tol); same("the centre", act(m, c), {0, 0, lh ? d : -d, 1}, tol); V u = act(m, up, 0); REQUIRE(u[1] > 0, "up points to %s", show(u).c_str()); same("up's sideways part", u[0], 0, tol * (1 + mag(up))); V q = add(act(m, p), act(m, eye3), -1); q.pop_back(); same("the distance from the eye", mag(q), mag(add(p, eye3, -1)), tol); M r = md(m.e, 4); r.n = 3; same("the determinant of the view's rotation", det(r), 1, 400 * EPS); if ((dir[0] != 0) + (dir[1] != 0) + (dir[2] != 0) > 1) g.nontrivial();
}
// ---- quaternions
static V qmul(const V &a, const V &b) { V x = {a[0], a[1], a[2]}, y = {b[0], b[1], b[2]}, c = cross(x, y); return {a[3] * b[0] + b[3] * a[0] + c[0], a[3] * b[1] + b[3] * a[1] + c[1], a[3] * b[2] + b[3] * a[2] + c[2], a[3] * b[3] - dot(x, y)}; }
static V qconj(V a) { for (int i = 0; i < 3; i++) a[(size_t)i] = -a[(size_t)i]; return a; }
static zpl_quat rotq(Gen &g, V *axis = 0, float *an = 0) { V a = axis_of(g); float t = angle_of(g); if (axis) *axis = a; if (an) *an = t; return zpl_quat_axis_angle(f3(a), t); }
static V qrot(const V &q, const V &v) { V r = qmul(qmul(q, {v[0], v[1], v[2], 0}), qconj(q)); return scale({r[0], r[1], r[2]}, 1 / dot(q, q)); }
PROPERTY(quaternions, 300000, 8000000, "quaternions that do not commute") {
    zpl_quat a, b, d; { float e[8]; for (auto &x : e) x = comp(g); a = zpl_quatf(e[0], e[1], e[2], e[3]); b = zpl_quatfv(e + 4); } V A = vd(a), B = vd(b); double m = mag(A) * mag(B), s = mag(A) + mag(B); g.note("%s %s", show(A).c_str(), show(B).c_str());
    poison(d), zpl_quat_mul(&d, a, b); same("the product", vd(d), qmul(A, B), 10 * EPS * m); d = a; zpl_quat_muleq(&d, b); same("the product in place", vd(d), qmul(A, B), 10 * EPS * m); same("a * b", vd(a * b), qmul(A, B), 10 * EPS * m); d = a; d *= b; same("a *= b", vd(d), qmul(A, B), 10 * EPS * m); poison(d), zpl_quat_add(&d, a, b); same("the sum", vd(d), add(A, B), EPS * s); poison(d), zpl_quat_sub(&d, a, b); same("the difference", vd(d), add(A, B, -1), EPS * s); d = a; zpl_quat_addeq(&d, b); same("the sum in place", vd(d), add(A, B), EPS * s); d = a; zpl_quat_subeq(&d, b); same("the difference in place", vd(d), add(A, B, -1), EPS * s);
    poison(d), zpl_quat_mulf(&d, a, 3.f); same("the multiple", vd(d), scale(A, 3), 4 * EPS * mag(A)); poison(d), zpl_quat_divf(&d, a, 3.f); same("the quotient by a number", vd(d), scale(A, 1 / 3.), 2 * EPS * mag(A)); d = a; zpl_quat_muleqf(&d, 3.f); same("the multiple in place", vd(d), scale(A, 3), 4 * EPS * mag(A)); d = a; zpl_quat_diveqf(&d, 3.f); same("the quotient by a number in place", vd(d), scale(A, 1 / 3.), 2 * EPS * mag(A));
    same("the dot product", zpl_quat_dot(a, b), dot(A, B), 8 * EPS * m); same("the magnitude", zpl_quat_mag(a), mag(A), 8 * EPS * mag(A)); poison(d), zpl_quat_conj(&d, a); same("the conjugate", vd(d), qconj(A), 0); d = a; zpl_quat_conj(&d, d); same("the conjugate in place", vd(d), qconj(A), 0); d = zpl_quat_identity(); same("the identity", vd(d), {0, 0, 0, 1}, 0); REQUIRE((a == b) == (A == B) && (a != b) == (A != B), "comparing is wrong"); same("-a", vd(-a), scale(A, -1), 0);
    if (mag(B) > 1e-3) { poison(d), zpl_quat_inverse(&d, b); same("the inverse", vd(d), scale(qconj(B), 1 / dot(B, B)), 12 * EPS / mag(B)); poison(d), zpl_quat_div(&d, a, b); V want = scale(qmul(A, qconj(B)), 1 / dot(B, B)); same("the quotient", vd(d), want, 30 * EPS * mag(A) / mag(B)); d = a; zpl_quat_diveq(&d, b); same("the quotient in place", vd(d), want, 30 * EPS * mag(A) / mag(B)); poison(d), zpl_quat_norm(&d, b); same("the unit quaternion", vd(d), unit(B), 10 * EPS); d = b; zpl_quat_norm(&d, d); same("the unit quaternion in place", vd(d), unit(B), 10 * EPS); }
    V c = add(qmul(A, B), qmul(B, A), -1); if (mag(c) > 0) g.nontrivial();
}
PROPERTY(rotations, 300000, 8000000, "an angle that is neither zero nor a half turn") {
    V ax; float an; zpl_quat q = rotq(g, &ax, &an), q2 = rotq(g); V p = vd(v3(g)), Q = vd(q), want = rodrigues(ax, an, p); double tol = 60 * EPS * (1 + mag(p)); g.note("rotate %s by %.9g about %s", show(p).c_str(), an, show(ax).c_str()); zpl_vec3 v; poison(v), zpl_quat_rotate_vec3(&v, q, f3(p)); same("the rotated vector", vd(v), want, tol); v = f3(p); zpl_quat_rotate_vec3(&v, q, v); same("the vector rotated in place", vd(v), want, tol); same("q * v", vd(q * f3(p)), want, tol); same("the rotation's quaternion's magnitude", mag(Q), 1, 10 * EPS);
    zpl_quat both; poison(both), zpl_quat_mul(&both, q2, q); zpl_vec3 w, x; poison(w), zpl_quat_rotate_vec3(&w, q, f3(p)); zpl_quat_rotate_vec3(&w, q2, w); poison(x), zpl_quat_rotate_vec3(&x, both, f3(p)); same("the vector rotated by the product", vd(x), vd(w), 3 * tol);
    zpl_mat4 m, m2; float k = (float)g.range(1, 40) / 8.f; zpl_quat sq = zpl_quatf(q.x * k, q.y * k, q.z * k, q.w * k); poison(m), zpl_mat4_from_quat(&m, sq); same("the matrix of the quaternion", act(m, p), {want[0], want[1], want[2], 1}, tol); zpl_quat back; poison(back), zpl_quat_from_mat4(&back, &m); V Bk = vd(back); if (dot(Bk, Q) < 0) Bk = scale(Bk, -1); same("the quaternion of its matrix", Bk, Q, 1e-4); poison(m2), zpl_mat4_axis_angle(&m2, f3(ax), an); zpl_quat_from_mat4(&back, &m2); Bk = vd(back); if (dot(Bk, Q) < 0) Bk = scale(Bk, -1); same("the quaternion of the rotation's matrix", Bk, Q, 1e-4);
    double half = remainder((double)an, 4 * M_PI) / 2, angle = zpl_quat_angle(sq); REQUIRE(angle >= -1e-3 && angle <= 2 * M_PI + 1e-3, "the angle is %.9g", angle); same("the cosine of half the angle", cos(angle / 2), cos(half), 1e-5); if (fabs(sin(half)) > 0.05) { zpl_vec3 a; poison(a), zpl_quat_axis(&a, sq); V A = vd(a); same("the axis", A, scale(unit(ax), sin(half) < 0 ? -1 : 1), 1e-3); same("the vector rotated by the angle about the axis", rodrigues(A, angle, p), want, 2e-3 * (1 + mag(p))); }
    float pitch = angle_of(g) / 2, yaw = angle_of(g), roll = angle_of(g); zpl_quat e = zpl_quat_euler_angles(pitch, yaw, roll); V r = rodrigues({0, 1, 0}, yaw, rodrigues({1, 0, 0}, pitch, rodrigues({0, 0, 1}, roll, p))); poison(v), zpl_quat_rotate_vec3(&v, e, f3(p)); g.note("pitch %.9g, yaw %.9g, roll %.9g", pitch, yaw, roll); same("the vector rotated by roll, pitch and yaw", vd(v), r, 2 * tol);
    float a3[3] = {(float)g.range(-3100, 3100) / 1000.f, (float)g.range(-1500, 1500) / 1000.f, (float)g.range(-3100, 3100) / 1000.f}; zpl_quat X = zpl_quat_axis_angle(zpl_vec3f(1, 0, 0), a3[0]), Y = zpl_quat_axis_angle(zpl_vec3f(0, 1, 0), a3[1]), Z = zpl_quat_axis_angle(zpl_vec3f(0, 0, 1), a3[2]), zyx = Z * (Y * X); double loss = 2e-6 / (cos((double)a3[1]) * cos((double)a3[1])) + 1e-5; g.note("about x %.9g, y %.9g, z %.9g", a3[0], a3[1], a3[2]); same("the pitch", remainder(zpl_quat_pitch(zyx) - a3[0], 2 * M_PI), 0, loss); same("the yaw", zpl_quat_yaw(zyx), a3[1], loss * 10); same("the roll", remainder(zpl_quat_roll(zyx) - a3[2], 2 * M_PI), 0, loss);
    { zpl_quat pole = zpl_quat_axis_angle(zpl_vec3f(0, 1, 0), (float)(g.boolean() ? M_PI / 2 : -M_PI / 2)); zpl_quat mixed = pole * X; double y = zpl_quat_yaw(mixed); REQUIRE(fabs(fabs(y) - M_PI / 2) < 1e-2, "the yaw of a quarter turn is %.9g", y); }
    if (fabs(sin(an)) > 1e-3) g.nontrivial();
}
// ---- interpolation
static V slerp(V a, V b, double t) { double c = dot(a, b); if (c < 0) { b = scale(b, -1); c = -c; } if (c > 1) c = 1; double th = acos(c); if (th < 1e-9) return add(scale(a, 1 - t), b, t); return add(scale(a, sin((1 - t) * th) / sin(th)), b, sin(t * th) / sin(th)); }
static V nlerp(const V &a, const V &b, double t) { return unit(add(scale(a, 1 - t), b, t)); }
static V upto(V a, const V &b) { return dot(a, b) < 0 ? scale(a, -1) : a; }
PROPERTY(interpolation, 300000, 8000000, "different ends and a parameter strictly between them") {
    zpl_quat q[4]; q[0] = rotq(g); q[1] = g.u(4) ? rotq(g) : q[0]; if (g.u(8) == 0) q[1] = -q[0]; q[2] = rotq(g); q[3] = rotq(g); V Q[4]; for (int i = 0; i < 4; i++) Q[i] = vd(q[i]); float t = g.u(8) ? (float)g.u(1001) / 1000.f : (float)g.u(2); g.note("%s %s %s %s at %.9g", show(Q[0]).c_str(), show(Q[1]).c_str(), show(Q[2]).c_str(), show(Q[3]).c_str(), t); zpl_quat d; double c = dot(Q[0], Q[1]);
    poison(d), zpl_quat_lerp(&d, q[0], q[1], t); same("the linear interpolation", vd(d), add(scale(Q[0], 1 - (double)t), Q[1], t), 1e-6); if (c > -0.9) { poison(d), zpl_quat_nlerp(&d, q[0], q[1], t); same("the normalised interpolation", vd(d), nlerp(Q[0], Q[1], t), 3e-5); }
    if (fabs(c) > 1e-4) { poison(d), zpl_quat_slerp(&d, q[0], q[1], t); same("the spherical interpolation", vd(d), slerp(Q[0], Q[1], t), 2e-4); same("the spherical interpolation's magnitude", mag(vd(d)), 1, 2e-4); d = q[0]; zpl_quat_slerp(&d, d, q[1], t); same("the spherical interpolation in place", vd(d), slerp(Q[0], Q[1], t), 2e-4); }
    if (c > 0.2) { poison(d), zpl_quat_slerp_approx(&d, q[0], q[1], t); same("the approximate spherical interpolation", vd(d), slerp(Q[0], Q[1], t), 0.02 * (1 - c) * (1 - c) + 2e-4); V D = vd(d); same("its magnitude", mag(D), 1, 1e-5); }
    { double k = 2 * (double)t * (1 - (double)t), c1 = dot(Q[0], Q[3]), c2 = dot(Q[1], Q[2]); V x = slerp(Q[0], Q[3], t), y = slerp(Q[1], Q[2], t); if (fabs(c1) > 1e-2 && fabs(c2) > 1e-2 && fabs(dot(x, y)) > 1e-2) { poison(d), zpl_quat_squad(&d, q[0], q[1], q[2], q[3], t); V want = slerp(x, y, k); same("the spherical quadrangle interpolation", vd(d), want, 2e-3); }
      if (c1 > -0.9 && c2 > -0.9) { V u = nlerp(Q[0], Q[3], t), w = nlerp(Q[1], Q[2], t); if (dot(u, w) > -0.9) { poison(d), zpl_quat_nquad(&d, q[0], q[1], q[2], q[3], t); same("the normalised quadrangle interpolation", vd(d), nlerp(u, w, k), 3e-4); } }
      if (c1 > 0.5 && c2 > 0.5 && dot(x, y) > 0.5) { poison(d), zpl_quat_squad_approx(&d, q[0], q[1], q[2], q[3], t); same("the approximate quadrangle interpolation", vd(d), slerp(x, y, k), 0.05); } }
    zpl_vec3 a = v3(g), v0 = v3(g), b = v3(g), v1 = v3(g), r; double T = t, h0 = (1 + 2 * T) * (1 - T) * (1 - T), h1 = T * (1 - T) * (1 - T), h2 = T * T * (3 - 2 * T), h3 = T * T * (T - 1), e0 = 6 * T * T - 6 * T, e1 = 3 * T * T - 4 * T + 1, e2 = -e0, e3 = 3 * T * T - 2 * T, tol = 40 * EPS * (1 + mag(vd(a)) + mag(vd(b)) + mag(vd(v0)) + mag(vd(v1)));
    V cs = add(add(add(scale(vd(a), h0), vd(v0), h1), vd(b), h2), vd(v1), h3), ds = add(add(add(scale(vd(a), e0), vd(v0), e1), vd(b), e2), vd(v1), e3); poison(r), zpl_vec3_cslerp(&r, a, v0, b, v1, t); same("the cubic interpolation", vd(r), cs, tol); poison(r), zpl_vec3_dcslerp(&r, a, v0, b, v1, t); same("the cubic interpolation's derivative", vd(r), ds, tol * 4); zpl_vec2 s; poison(s), zpl_vec2_cslerp(&s, a.xy, v0.xy, b.xy, v1.xy, t); cs.pop_back(); ds.pop_back(); same("the cubic interpolation in the plane", vd(s), cs, tol); poison(s), zpl_vec2_dcslerp(&s, a.xy, v0.xy, b.xy, v1.xy, t); same("its derivative", vd(s), ds, tol * 4);
    if (fabs(c) < 0.999 && t > 0 && t < 1) g.nontrivial();
}
// ---- culling
PROPERTY(culling, 300000, 8000000, "a point inside and not on the view axis, or outside by one side only") {
    V eye3 = vd(v3(g)), dir = axis_of(g), up = axis_of(g); if (mag(cross(unit(dir), unit(up))) < 0.1) throw Discard(); V c = add(eye3, dir); zpl_mat4 view, proj; poison(view), zpl_mat4_look_at(&view, f3(eye3), f3(c), f3(up)); float zn = (float)g.range(1, 40) / 8.f, zf = zn + (float)g.range(8, 400) / 8.f; bool persp = g.boolean(); if (persp) poison(proj), zpl_mat4_perspective(&proj, (float)g.range(30, 240) / 100.f, (float)g.range(30, 300) / 100.f, zn, zf); else { float l = comp(g), b = comp(g); poison(proj), zpl_mat4_ortho3d(&proj, l, l + (float)g.range(1, 80) / 8.f, b, b + (float)g.range(1, 80) / 8.f, zn, zf); }
    M PV = mul(md(proj.e, 4), md(view.e, 4)), IV = inverse(PV); auto world = [&](V n) { n.push_back(1); V h = mul(IV, n); return V{h[0] / h[3], h[1] / h[3], h[2] / h[3]}; }; auto rn = [&](double lim) { return (double)g.range(-1000, 1000) / 1000. * lim; };
    V n = {rn(1.6), rn(1.6), rn(1.0)}; V p = world(n); for (auto &x : p) x = (float)x; V h = p; h.push_back(1); h = mul(PV, h); g.note("%s from %s towards %s: a point at %s of the view volume", persp ? "perspective" : "parallel", show(eye3).c_str(), show(dir).c_str(), show(n).c_str());
    zpl_frustum f; poison(f), zpl_frustum_create(&f, &view, &proj); zpl_plane *pl[6] = {&f.x1, &f.x2, &f.y1, &f.y2, &f.z1, &f.z2}; double size = 1 + mag(p) + mag(eye3) + zf, mar = 2e-5 * size; int sides = 0; double slack = 1e9; bool inside = true;
    for (int i = 0; i < 6; i++) { double s = i & 1 ? -1 : 1; if (i / 2 == 1) s = -s; V row(4); for (int k = 0; k < 4; k++) row[(size_t)k] = PV.a[3][k] + s * PV.a[i / 2][k]; double nn = sqrt(row[0] * row[0] + row[1] * row[1] + row[2] * row[2]), d = (row[0] * p[0] + row[1] * p[1] + row[2] * p[2] + row[3]) / nn; V got = vd(pl[i]->e, 4); double loss = 2e-4 * size; if (nn < 1e-2) loss /= nn * 50; same("the distance from a plane", zpl_plane_distance(pl[i], f3(p)), d, loss); same("the plane's normal's magnitude", sqrt(got[0] * got[0] + got[1] * got[1] + got[2] * got[2]), 1, 1e-5); slack = std::min(slack, fabs(d) / (loss + mar)); if (d < 0) { inside = false; sides++; } }
    if (slack < 1) throw Discard();
    REQUIRE(!!zpl_frustum_point_inside(&f, f3(p)) == inside, "the point is reported %s", inside ? "outside" : "inside"); float r = (float)g.range(0, 200) / 100.f; if (inside) REQUIRE(zpl_frustum_sphere_inside(&f, f3(p), r), "a sphere around a point inside is reported outside"); else { double worst = 0; for (auto q : pl) worst = std::min(worst, (double)zpl_plane_distance(q, f3(p))); float small = (float)(-worst * 0.9), large = (float)(-worst * 1.1); REQUIRE(!zpl_frustum_sphere_inside(&f, f3(p), small), "a sphere that reaches no further than %.9g is reported inside", small); REQUIRE(zpl_frustum_sphere_inside(&f, f3(p), large), "a sphere that reaches all planes is reported outside"); }
    V lo(3), hi(3); for (size_t k = 0; k < 3; k++) { lo[k] = p[k] - (float)g.range(0, 300) / 16.f; hi[k] = p[k] + (float)g.range(0, 300) / 16.f; } zpl_aabb3 box = zpl_aabb3f((float)lo[0], (float)lo[1], (float)lo[2], (float)hi[0], (float)hi[1], (float)hi[2]); g.note("box %s to %s, sphere %.9g", show(lo).c_str(), show(hi).c_str(), r); bool in = zpl_frustum_box_inside(&f, box);
    if (inside) REQUIRE(in, "a box around a point inside is reported outside"); bool behind = false; for (auto q : pl) { double best = -1e18; for (int k = 0; k < 8; k++) best = std::max(best, (double)zpl_plane_distance(q, zpl_vec3f(k & 1 ? box.max.x : box.min.x, k & 2 ? box.max.y : box.min.y, k & 4 ? box.max.z : box.min.z))); if (best < -mar) behind = true; } if (behind) REQUIRE(!in, "a box wholly behind one plane is reported inside");
    if (inside || sides == 1) g.nontrivial();
}
