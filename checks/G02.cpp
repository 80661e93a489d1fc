// vectors, segments and triangles
#include "scene.hpp"
using namespace nikfemm;
typedef long double ld;
typedef std::array<int64_t, 2> I;
static int64_t cr(I a, I b, I c) { return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]); }
static int sg(int64_t v) { return (v > 0) - (v < 0); }
static bool on(I p, I a, I b) { return cr(a, b, p) == 0 && (p[0] - a[0]) * (p[0] - b[0]) + (p[1] - a[1]) * (p[1] - b[1]) <= 0; }

PROPERTY(lattice, 240000, 6000000, "two segments and a triangle with lattice coordinates against exact arithmetic, in all orders of their points; non-trivial: the segments' boxes overlap, or the triangle is not degenerate") {
    int R = 2 + g.size(0, 40);
    double sc = ldexp(1, (int)g.range(-12, 12));
    I off{g.range(-500, 500), g.range(-500, 500)};
    I q[4];
    for (auto& v : q) v = {off[0] + g.range(-R, R), off[1] + g.range(-R, R)};
    if (g.coin(0.2)) q[2] = {2 * q[1][0] - q[0][0], 2 * q[1][1] - q[0][1]};                                        // collinear
    if (g.coin(0.15)) q[3] = {q[2][0] + q[1][0] - q[0][0], q[2][1] + q[1][1] - q[0][1]};                           // parallel
    if (g.coin(0.1)) q[2][0] = q[0][0], q[1][0] = q[0][0], q[3][0] = q[0][0] + (g.coin() ? 0 : g.range(-1, 1));     // vertical
    Vector v[4];
    for (int i = 0; i < 4; i++) v[i] = {q[i][0] * sc, q[i][1] * sc};
    g.note("(%d,%d) (%d,%d) (%d,%d) (%d,%d) times %g", (int)q[0][0], (int)q[0][1], (int)q[1][0], (int)q[1][1], (int)q[2][0], (int)q[2][1], (int)q[3][0], (int)q[3][1], sc);
    ASSUME(q[0] != q[1] && q[2] != q[3]);
    bool touch = on(q[0], q[2], q[3]) || on(q[1], q[2], q[3]) || on(q[2], q[0], q[1]) || on(q[3], q[0], q[1]);
    int d1 = sg(cr(q[0], q[1], q[2])), d2 = sg(cr(q[0], q[1], q[3])), d3 = sg(cr(q[2], q[3], q[0])), d4 = sg(cr(q[2], q[3], q[1]));
    bool cross = d1 * d2 < 0 && d3 * d4 < 0;
    bool collinear = !d1 && !d2;
    bool sharedEnd = q[0] == q[2] || q[0] == q[3] || q[1] == q[2] || q[1] == q[3];
    bool overlap = collinear && touch && !sharedEnd;
    g.nontrivial(std::max(q[0][0], q[1][0]) >= std::min(q[2][0], q[3][0]) && std::max(q[2][0], q[3][0]) >= std::min(q[0][0], q[1][0]) && std::max(q[0][1], q[1][1]) >= std::min(q[2][1], q[3][1]) &&
                 std::max(q[2][1], q[3][1]) >= std::min(q[0][1], q[1][1]));
    if (cross || overlap || !touch) {
        g.label(cross ? "cross" : overlap ? "overlap" : "apart");
        for (int k = 0; k < 8; k++) {
            Vector a = v[0], b = v[1], c = v[2], d = v[3];
            if (k & 1) std::swap(a, b);
            if (k & 2) std::swap(c, d);
            if (k & 4) std::swap(a, c), std::swap(b, d);
            CHECK(Segment::segmentsIntersect(a, b, c, d) == (cross || overlap), "intersect", "segments that %s: order %d of their points", cross ? "cross" : overlap ? "overlap" : "are apart", k);
        }
    }
    // orientation and triangles (the library treats areas below 2.2e-16 as zero)
    int o = d1;
    if (o == 0 || fabsl((ld)cr(q[0], q[1], q[2]) * sc * sc) > 1e-14L) {
        Orientation want = o == 0 ? COLLINEAR : o < 0 ? CLOCKWISE : COUNTERCLOCKWISE;
        Orientation flip = o == 0 ? COLLINEAR : o > 0 ? CLOCKWISE : COUNTERCLOCKWISE;
        CHECK(geomOrientation(v[0], v[1], v[2]) == want && geomOrientation(v[1], v[2], v[0]) == want && geomOrientation(v[2], v[1], v[0]) == flip, "orientation", "orientation %d", o);
    }
    if (o) {
        int s1 = sg(cr(q[0], q[1], q[3])) * o, s2 = sg(cr(q[1], q[2], q[3])) * o, s3 = sg(cr(q[2], q[0], q[3])) * o;
        bool in = s1 > 0 && s2 > 0 && s3 > 0, out = s1 < 0 || s2 < 0 || s3 < 0;
        if ((in || out) && sc * sc > 1e-7) {
            CHECK(pointInTriangle(v[3], v[0], v[1], v[2]) == in && pointInTriangle(v[3], v[2], v[1], v[0]) == in, "triangle", "a point %s the triangle", in ? "inside" : "outside");
        }
    }
    ld A = (ld)cr(q[0], q[1], q[2]) * sc * sc;
    double big = sc * sc * 1e-9;
    CHECK(fabsl(Vector::doubleOrientedArea(v[0], v[1], v[2]) - A) <= big && fabsl(Vector::orientedArea(v[0], v[1], v[2]) - A / 2) <= big && fabsl(Vector::area(v[2], v[1], v[0]) - fabsl(A) / 2) <= big, "area", "twice the area is %.17g, should be %.17Lg", Vector::doubleOrientedArea(v[0], v[1], v[2]), A);
    bool bb = q[3][0] >= std::min(q[0][0], q[1][0]) && q[3][0] <= std::max(q[0][0], q[1][0]) && q[3][1] >= std::min(q[0][1], q[1][1]) && q[3][1] <= std::max(q[0][1], q[1][1]);
    CHECK(Segment::pointInSegmentBB(v[3], v[0], v[1]) == bb && Segment::pointInSegmentBB(v[3], Segment(v[1], v[0])) == bb, "box", "a point and the box of a segment");
    Segment S(v[0], v[1]), S2(v[1], v[0]), S3(v[2], v[3]);
    bool eq = (q[0] == q[2] && q[1] == q[3]) || (q[0] == q[3] && q[1] == q[2]);
    CHECK(S == S2 && !(S != S2) && (S == S3) == eq && (S != S3) == !eq, "equal", "equality of segments");
}

PROPERTY(real, 180000, 4500000, "the operations of vectors and distances from segments with real coordinates of any scale against long double; non-trivial: no operand is zero and the point is beside the segment, not beyond its ends") {
    double s = g.logreal(1e-6, 1e6);
    auto vec = [&] { return g.coin(0.1) ? Vector(g.range(-2, 2) * s, g.range(-2, 2) * s) : Vector(g.real(-1, 1) * s, g.real(-1, 1) * s); };
    Vector a = vec(), b = vec(), p = vec();
    if (g.coin(0.1)) b = a;
    if (g.coin(0.1)) p = a + (b - a) * g.real(-0.5, 1.5);
    if (g.coin(0.05)) p = a;
    double k = g.mixed(100), an = g.real(-10, 10);
    ld M = std::max({fabsl(a.x), fabsl(a.y), fabsl(b.x), fabsl(b.y), fabsl(p.x), fabsl(p.y), (ld)1e-300});
    g.note("a=(%.17g,%.17g) b=(%.17g,%.17g) p=(%.17g,%.17g) k=%.17g angle=%.17g", a.x, a.y, b.x, b.y, p.x, p.y, k, an);
    auto is = [&](Vector v, ld x, ld y, ld mag, const char* what) { CHECK(fabsl(v.x - x) <= 4e-15L * mag && fabsl(v.y - y) <= 4e-15L * mag, what, "%s is (%.17g,%.17g), should be (%.17Lg,%.17Lg)", what, v.x, v.y, x, y); };
    auto num = [&](double v, ld w, ld mag, const char* what) { CHECK(fabsl(v - w) <= 4e-15L * mag, what, "%s is %.17g, should be %.17Lg", what, v, w); };
    ld ax = a.x, ay = a.y, bx = b.x, by = b.y, px = p.x, py = p.y;
    is(a + b, ax + bx, ay + by, M, "a+b");
    is(a - b, ax - bx, ay - by, M, "a-b");
    is(-a, -ax, -ay, M, "-a");
    is(a * k, ax * k, ay * k, M * fabs(k), "a*k");
    if (k != 0) is(a / k, ax / k, ay / k, M / fabs(k), "a/k");
    num(a * b, ax * bx + ay * by, M * M, "dot");
    num(a ^ b, ax * by - ay * bx, M * M, "cross");
    num(a.norm(), hypotl(ax, ay), M, "norm");
    num(a.normSquared(), ax * ax + ay * ay, M * M, "normSquared");
    num(Vector::distance(a, b), hypotl(ax - bx, ay - by), M, "distance");
    num(Vector::distanceSquared(a, b), (ax - bx) * (ax - bx) + (ay - by) * (ay - by), 4 * M * M, "distanceSquared");
    is(Vector::midPoint(a, b), (ax + bx) / 2, (ay + by) / 2, M, "midPoint");
    is(Vector::lerp(a, b, k), ax + (bx - ax) * k, ay + (by - ay) * k, M * (1 + 2 * fabs(k)), "lerp");
    is(a.rotate(an), ax * cosl(an) - ay * sinl(an), ax * sinl(an) + ay * cosl(an), M, "rotate");
    ld rx = ax - bx, ry = ay - by;
    is(a.rotate(an, b), bx + rx * cosl(an) - ry * sinl(an), by + rx * sinl(an) + ry * cosl(an), 3 * M, "rotate about");
    is(a.normal(), -ay, ax, M, "normal");
    Vector t = a;
    t += b, is(t, ax + bx, ay + by, M, "+=");
    t = a, t -= b, is(t, ax - bx, ay - by, M, "-=");
    t = a, t *= k, is(t, ax * k, ay * k, M * fabs(k), "*=");
    if (k != 0) t = a, t /= k, is(t, ax / k, ay / k, M / fabs(k), "/=");
    CHECK(Vector().x == 0 && Vector().y == 0, "default", "a new vector is (%g,%g)", Vector().x, Vector().y);
    t = a, t.translate(b), is(t, ax + bx, ay + by, M, "translate");
    ld na = hypotl(ax, ay);
    t = a, t.normalize();
    if (na > 0) is(t, ax / na, ay / na, 1, "normalize");
    else is(t, 0, 0, 1, "normalize");
    ld ab = hypotl(rx, ry);
    if (ab > 3e-9L) CHECK(a != b && !(a == b), "equal", "different vectors are equal");
    if (ab < 3e-10L) CHECK(a == b && !(a != b), "equal", "equal vectors are different");
    CHECK(Segment(a, b).length() == Segment(b, a).length(), "length", "length of the segment turned around");
    num(Segment(a, b).length(), ab, M, "length");
    ld d = scene::segDist(p, a, b);
    num(Segment::pointSegmentDistance(p, a, b), d, 20 * M, "distance from segment");
    num(Segment::pointSegmentDistance(p, Segment(b, a)), d, 20 * M, "distance from segment");
    // angle at b
    ld l1 = hypotl(ax - bx, ay - by), l2 = hypotl(px - bx, py - by);
    if (l1 > 1e-3L * M && l2 > 1e-3L * M) {
        ld w = atan2l((ax - bx) * (py - by) - (ay - by) * (px - bx), (ax - bx) * (px - bx) + (ay - by) * (py - by));
        if (M_PIl - fabsl(w) > 1e-9L) {
            CHECK(fabsl(Vector::orientedAngle(a, b, p) - w) < 1e-11L, "angle", "the angle is %.17g, should be %.17Lg", Vector::orientedAngle(a, b, p), w);
            CHECK(fabsl(Vector::orientedAngle(p, b, a) + w) < 1e-11L, "angle", "the angle the other way");
        }
        CHECK(fabsl(Vector::absoluteAngle(a, b, p) - fabsl(w)) < 1e-11L, "angle", "the absolute angle");
    }
    ld tt = ab > 0 ? ((px - ax) * (bx - ax) + (py - ay) * (by - ay)) / (ab * ab) : -1;
    g.nontrivial(na > 0 && k != 0 && tt > 0 && tt < 1);
}
