// G03: rectangles and boxes against sets of points on a half-unit grid
// @fuzz-quick 4
// @fuzz-thorough 90
#include "zh.hpp"
#include <cmath>
struct I { double lo, hi; bool has(double x) const { return lo <= x && x < hi; } bool empty() const { return !(lo < hi); } };   // a half-open interval
static I meet(I a, I b) { return {std::max(a.lo, b.lo), std::min(a.hi, b.hi)}; }
static float co(Gen &g) { switch (g.u(8)) { case 0: return (float)g.range(-256, 256) / 4.f; case 1: return g.u(8) ? (float)g.range(-8, 8) : 1000.f + (float)g.range(-8, 8); default: return (float)g.range(-8, 8) / (g.boolean() ? 1.f : 2.f); } }
static std::string show(const zpl_aabb2 &a) { char b[120]; snprintf(b, sizeof b, "(%g, %g)..(%g, %g)", a.min.x, a.min.y, a.max.x, a.max.y); return b; }
static std::string show(const zpl_rect2 &a) { char b[120]; snprintf(b, sizeof b, "(%g, %g) of size (%g, %g)", a.pos.x, a.pos.y, a.dim.x, a.dim.y); return b; }
static zpl_rect2 rect(Gen &g) { float x = co(g), y = co(g), w = g.u(5) ? (float)g.range(0, 12) / 2 : (float)g.range(-8, 8), h = g.u(5) ? (float)g.range(0, 12) / 2 : (float)g.range(-8, 8); return zpl_rect2f(zpl_vec2f(x, y), zpl_vec2f(w, h)); }
static I ix(const zpl_rect2 &r) { return {std::min(r.pos.x, r.pos.x + r.dim.x), std::max(r.pos.x, r.pos.x + r.dim.x)}; }
static I iy(const zpl_rect2 &r) { return {std::min(r.pos.y, r.pos.y + r.dim.y), std::max(r.pos.y, r.pos.y + r.dim.y)}; }
static zpl_aabb2 box(Gen &g) { float x = co(g), y = co(g); float w = (float)g.range(0, g.u(6) ? 16 : 60) / 2, h = (float)g.range(0, g.u(6) ? 16 : 60) / 2; return zpl_aabb2f(x, y, x + w, y + h); }
static I ix(const zpl_aabb2 &a) { return {a.min.x, a.max.x}; }
static I iy(const zpl_aabb2 &a) { return {a.min.y, a.max.y}; }
static bool eq(const zpl_aabb2 &a, double x0, double y0, double x1, double y1) { return a.min.x == x0 && a.min.y == y0 && a.max.x == x1 && a.max.y == y1; }
static float around(Gen &g, I a, I b) { double base = g.boolean() ? (g.boolean() ? a.lo : a.hi) : (g.boolean() ? b.lo : b.hi); return g.u(3) ? (float)(base + (double)g.range(-2, 2) / 2) : co(g); }
PROPERTY(containment, 300000, 8000000, "a point on an edge of the region") {
    zpl_rect2 r = rect(g), s = rect(g); zpl_aabb2 b = box(g); float x = around(g, ix(r), ix(b)), y = around(g, iy(r), iy(b)); g.note("%s, %s, point (%g, %g)", show(r).c_str(), show(b).c_str(), x, y);
    bool in = ix(r).has(x) && iy(r).has(y); REQUIRE(!!zpl_rect2_contains(r, x, y) == in, "the rectangle is said %s(%g, %g)", in ? "not to contain " : "to contain ", x, y); REQUIRE(!!zpl_rect2_contains_vec2(r, zpl_vec2f(x, y)) == in, "the rectangle is said %sthe point", in ? "not to contain " : "to contain ");
    bool inb = ix(b).has(x) && iy(b).has(y); REQUIRE(!!zpl_aabb2_contains(b, x, y) == inb, "the box is said %s(%g, %g)", inb ? "not to contain " : "to contain ", x, y);
    float z0 = co(g), z1 = z0 + (float)g.range(0, 16) / 2, z = g.boolean() ? z0 + (float)g.range(-2, 2) / 2 : z1 + (float)g.range(-2, 2) / 2; zpl_aabb3 c = zpl_aabb3f(b.min.x, b.min.y, z0, b.max.x, b.max.y, z1); g.note("height %g..%g, %g", z0, z1, z); bool inc = inb && z0 <= z && z < z1; REQUIRE(!!zpl_aabb3_contains(c, x, y, z) == inc, "the box is said %s(%g, %g, %g)", inc ? "not to contain " : "to contain ", x, y, z);
    zpl_aabb2 k = zpl_aabb2_rect2(r); REQUIRE(eq(k, r.pos.x, r.pos.y, r.pos.x + r.dim.x, r.pos.y + r.dim.y), "the rectangle became the box %s", show(k).c_str()); zpl_rect2 q = zpl_rect2_aabb2(k); REQUIRE(q.pos.x == r.pos.x && q.pos.y == r.pos.y && q.dim.x == r.dim.x && q.dim.y == r.dim.y, "the rectangle came back as %s", show(q).c_str());
    zpl_rect3 r3 = zpl_rect3_aabb3(c); zpl_aabb3 c2 = zpl_aabb3_rect3(r3); REQUIRE(r3.pos.x == c.min.x && r3.pos.y == c.min.y && r3.pos.z == c.min.z && r3.dim.x == c.max.x - c.min.x && r3.dim.y == c.max.y - c.min.y && r3.dim.z == c.max.z - c.min.z, "the box became another cuboid"); for (int i = 0; i < 3; i++) REQUIRE(c2.min.e[i] == c.min.e[i] && c2.max.e[i] == c.max.e[i], "the box came back different"); zpl_rect3 r4 = zpl_rect3f(c.min, c.max); for (int i = 0; i < 3; i++) REQUIRE(r4.pos.e[i] == c.min.e[i] && r4.dim.e[i] == c.max.e[i], "the cuboid is not what was given"); (void)s;
    if (x == ix(r).lo || x == ix(r).hi || x == b.min.x || x == b.max.x || y == b.min.y || y == b.max.y) g.nontrivial();
}
PROPERTY(intersection, 300000, 8000000, "rectangles that share points and neither of which contains the other") {
    zpl_rect2 a = rect(g), b = rect(g); if (g.u(4) == 0) { b = a; b.pos.x += (float)g.range(-3, 3) * a.dim.x / 2; b.pos.y += (float)g.range(-2, 2) * a.dim.y / 2; } g.note("%s and %s", show(a).c_str(), show(b).c_str()); I x = meet(ix(a), ix(b)), y = meet(iy(a), iy(b)); bool common = !x.empty() && !y.empty(); zpl_rect2 r = rect(g); int got = zpl_rect2_intersection_result(a, b, &r);
    REQUIRE(!!got == common, "the rectangles are said %s", common ? "to be disjoint" : "to intersect"); REQUIRE(!!zpl_rect2_intersects(a, b) == common && !!zpl_rect2_intersects(b, a) == common, "the rectangles are said %s", common ? "to be disjoint" : "to intersect"); for (double py = -20; py <= 20; py += 0.5) for (double px = -20; px <= 20; px += 2.5) { bool in = ix(a).has(px) && ix(b).has(px) && iy(a).has(py) && iy(b).has(py); bool res = ix(r).has(px) && iy(r).has(py); if (in != res) fail("the intersection %s is wrong about (%g, %g)", show(r).c_str(), px, py); }
    if (common) REQUIRE(r.pos.x == x.lo && r.pos.y == y.lo && r.dim.x == x.hi - x.lo && r.dim.y == y.hi - y.lo, "the intersection is %s, expected (%g, %g)..(%g, %g)", show(r).c_str(), x.lo, y.lo, x.hi, y.hi); else REQUIRE(r.dim.x == 0 && r.dim.y == 0, "the intersection is %s, expected nothing", show(r).c_str());
    if (common && (x.lo > ix(a).lo || x.hi < ix(a).hi || y.lo > iy(a).lo || y.hi < iy(a).hi) && (x.lo > ix(b).lo || x.hi < ix(b).hi || y.lo > iy(b).lo || y.hi < iy(b).hi)) g.nontrivial();
}
PROPERTY(layout, 300000, 8000000, "a history of at least three cuts in different directions, none of them of nothing or everything") {
    zpl_aabb2 a = box(g), whole = a; std::vector<zpl_aabb2> pieces; int dirs = 0, real = 0; g.note("%s", show(a).c_str()); int n = 1 + (int)g.u(6);
    for (int i = 0; i < n; i++) { int d = (int)g.u(4); float b = (float)g.range(0, 10) / 2; zpl_aabb2 was = a, got, cut, added; const zpl_aabb2 *ca = &was; double w = was.max.x - was.min.x, h = was.max.y - was.min.y, k = std::min<double>(b, d < 2 ? w : h); static const char *dn[] = {"left", "right", "top", "bottom"}; g.note("%s by %g", dn[d], b); double x0 = was.min.x, y0 = was.min.y, x1 = was.max.x, y1 = was.max.y;
        switch (d) {
            case 0: got = zpl_aabb2_get_left(ca, b); added = zpl_aabb2_add_left(ca, b); cut = zpl_aabb2_cut_left(&a, b); REQUIRE(eq(cut, x0, y0, x0 + k, y1) && eq(a, x0 + k, y0, x1, y1), "cutting %s from the left leaves %s and %s", show(was).c_str(), show(cut).c_str(), show(a).c_str()); REQUIRE(eq(added, x0 - b, y0, x0, y1), "the box added on the left is %s", show(added).c_str()); break;
            case 1: got = zpl_aabb2_get_right(ca, b); added = zpl_aabb2_add_right(ca, b); cut = zpl_aabb2_cut_right(&a, b); REQUIRE(eq(cut, x1 - k, y0, x1, y1) && eq(a, x0, y0, x1 - k, y1), "cutting %s from the right leaves %s and %s", show(was).c_str(), show(cut).c_str(), show(a).c_str()); REQUIRE(eq(added, x1, y0, x1 + b, y1), "the box added on the right is %s", show(added).c_str()); break;
            case 2: got = zpl_aabb2_get_top(ca, b); added = zpl_aabb2_add_top(ca, b); cut = zpl_aabb2_cut_top(&a, b); REQUIRE(eq(cut, x0, y0, x1, y0 + k) && eq(a, x0, y0 + k, x1, y1), "cutting %s from the top leaves %s and %s", show(was).c_str(), show(cut).c_str(), show(a).c_str()); REQUIRE(eq(added, x0, y0 - b, x1, y0), "the box added on top is %s", show(added).c_str()); break;
            default: got = zpl_aabb2_get_bottom(ca, b); added = zpl_aabb2_add_bottom(ca, b); cut = zpl_aabb2_cut_bottom(&a, b); REQUIRE(eq(cut, x0, y1 - k, x1, y1) && eq(a, x0, y0, x1, y1 - k), "cutting %s from the bottom leaves %s and %s", show(was).c_str(), show(cut).c_str(), show(a).c_str()); REQUIRE(eq(added, x0, y1, x1, y1 + b), "the box added at the bottom is %s", show(added).c_str()); }
        REQUIRE(eq(got, cut.min.x, cut.min.y, cut.max.x, cut.max.y), "the part %s is got, but %s is cut", show(got).c_str(), show(cut).c_str()); REQUIRE(eq(was, x0, y0, x1, y1), "asking for a part changed the box to %s", show(was).c_str()); pieces.push_back(cut); if (k > 0 && k < (d < 2 ? w : h)) { real++; dirs |= 1 << d; } }
    pieces.push_back(a); for (double y = whole.min.y - 1; y <= whole.max.y + 1; y += 0.5) for (double x = whole.min.x - 1; x <= whole.max.x + 1; x += 0.5) { int c = 0; for (auto &p : pieces) c += ix(p).has(x) && iy(p).has(y); int want = ix(whole).has(x) && iy(whole).has(y); if (c != want) fail("the point (%g, %g) lies in %d pieces", x, y, c); }
    if (real >= 3 && (dirs & (dirs - 1))) g.nontrivial();
}
PROPERTY(contraction, 300000, 8000000, "a contraction that leaves part of the box") {
    zpl_aabb2 a = box(g), was = a; float b = (float)g.range(-10, 10) / 2; g.note("%s by %g", show(a).c_str(), b); zpl_aabb2 c = zpl_aabb2_contract(&a, b), e = zpl_aabb2_expand(&a, -b); double x0 = a.min.x + b, y0 = a.min.y + b, x1 = a.max.x - b, y1 = a.max.y - b; bool gone = x0 > x1 || y0 > y1; if (gone) x0 = y0 = x1 = y1 = 0; REQUIRE(eq(c, x0, y0, x1, y1), "contracting gives %s, expected (%g, %g)..(%g, %g)", show(c).c_str(), x0, y0, x1, y1); REQUIRE(eq(e, x0, y0, x1, y1), "expanding by the opposite gives %s, expected (%g, %g)..(%g, %g)", show(e).c_str(), x0, y0, x1, y1); REQUIRE(eq(a, was.min.x, was.min.y, was.max.x, was.max.y), "the box itself changed to %s", show(a).c_str()); if (b > 0 && !gone && x0 < x1 && y0 < y1) g.nontrivial();
}
