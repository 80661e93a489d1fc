// circles through and around points
#include "scene.hpp"
#include <unordered_set>
using namespace nikfemm;
typedef long double ld;

static std::vector<Vector> gen(pbt::Gen& g, int lo, int hi, double& s) {
    s = g.logreal(1e-4, 1e5);
    Vector off = g.coin() ? Vector(0, 0) : Vector(g.real(-10, 10), g.real(-10, 10)) * s;
    if (g.coin(0.2)) off = off * g.logreal(10, 1e6), g.label("far from the origin");
    int n = g.size(lo, hi), kind = g.draw(5);
    std::vector<Vector> p;
    double an = g.real(0, 7);
    for (int i = 0; i < n; i++) {
        Vector v;
        switch (kind) {
            case 0: v = {(double)g.range(-3, 3), (double)g.range(-3, 3)}; break;             // lattice: duplicates, collinear, cocircular
            case 1: v = Vector(g.real(-1, 1), 0).rotate(an); break;                           // collinear
            case 2: v = Vector(1, 0).rotate(2 * M_PI * g.draw(11) / 12); break;               // cocircular
            case 3: v = g.coin() && i ? p[g.draw(i - 1)] / s - off / s : Vector(g.real(-1, 1), g.real(-1, 1)); break;  // duplicates
            default: v = {g.real(-1, 1), g.real(-1, 1)};
        }
        p.push_back(v * s + off);
    }
    static const char* names[] = {"lattice", "collinear", "cocircular", "duplicates", "random", "random"};
    g.label(names[kind]);
    std::string t;
    for (auto& v : p) t += pbt::fmt(" (%.17g,%.17g)", v.x, v.y);
    g.note("%d points:%s", n, t.c_str());
    return p;
}

// smallest enclosing circle by trying all pairs and triples, in long double
static ld smallest(const std::vector<Vector>& p, ld tol) {
    ld best = INFINITY;
    size_t n = p.size();
    auto covers = [&](ld x, ld y, ld r) {
        for (auto& v : p)
            if (hypotl(v.x - x, v.y - y) > r + tol) return false;
        return true;
    };
    for (size_t i = 0; i < n; i++) {
        if (covers(p[i].x, p[i].y, 0)) best = 0;
        for (size_t j = 0; j < i; j++) {
            ld x = ((ld)p[i].x + p[j].x) / 2, y = ((ld)p[i].y + p[j].y) / 2, r = hypotl(p[i].x - x, p[i].y - y);
            if (r < best && covers(x, y, r)) best = r;
            for (size_t k = 0; k < j; k++) {
                ld bx = (ld)p[j].x - p[i].x, by = (ld)p[j].y - p[i].y, cx = (ld)p[k].x - p[i].x, cy = (ld)p[k].y - p[i].y;
                ld D = 2 * (bx * cy - by * cx);
                if (fabsl(D) < 1e-9L * (bx * bx + by * by + cx * cx + cy * cy)) continue;
                ld ux = (cy * (bx * bx + by * by) - by * (cx * cx + cy * cy)) / D, uy = (bx * (cx * cx + cy * cy) - cx * (bx * bx + by * by)) / D;
                ld rr = hypotl(ux, uy);
                if (rr < best && covers(p[i].x + ux, p[i].y + uy, rr)) best = rr;
            }
        }
    }
    return best;
}

PROPERTY(minimal, 600000, 900000, "the smallest enclosing circle of 0..12 points (duplicates, collinear, cocircular and random ones) against all pairs and triples; non-trivial: at least three distinct points") {
    double s;
    auto p = gen(g, 0, 12, s);
    std::set<std::pair<double, double>> u;
    for (auto& v : p) u.insert({v.x, v.y});
    g.nontrivial(u.size() >= 3);
    srand((unsigned)g.draw(1000));  // the algorithm is randomised
    Circle c;
    if (g.coin()) c = Circle::getMinimumEnclosingCircle(p);
    else {
        // points that are nearly the same are one point in a set
        std::unordered_set<Vector> set(p.begin(), p.end());
        p.assign(set.begin(), set.end());
        c = Circle::getMinimumEnclosingCircle(set);
    }
    double mag = s;
    for (auto& v : p) mag = std::max({mag, fabs(v.x), fabs(v.y)});
    CHECK(std::isfinite(c.radius) && std::isfinite(c.center.x) && std::isfinite(c.center.y), "nonfinite", "the circle is (%g,%g) r=%g", c.center.x, c.center.y, c.radius);
    if (p.empty()) return;
    for (auto& v : p) CHECK(hypotl(v.x - c.center.x, v.y - c.center.y) <= c.radius + 1e-8L * s + 1e-11L * mag, "outside", "(%.17g,%.17g) is outside of the circle (%.17g,%.17g) r=%.17g", v.x, v.y, c.center.x, c.center.y, c.radius);
    ld w = smallest(p, 1e-10L * mag);
    CHECK(fabsl(c.radius - w) <= 1e-6L * s + 1e-9L * mag, "minimal", "the radius is %.17g, the smallest one is %.17Lg", c.radius, w);
}

PROPERTY(many, 30000, 400000, "the smallest enclosing circle of 13..400 points: all are in it, and those on it are not all on less than half of it; non-trivial: at least three distinct points") {
    double s;
    auto p = gen(g, 13, g.coin(0.1) ? 400 : 60, s);
    std::set<std::pair<double, double>> u;
    for (auto& v : p) u.insert({v.x, v.y});
    g.nontrivial(u.size() >= 3);
    if (g.coin()) {
        // an ellipse of points
        double e = g.real(0.01, 1), an = g.real(0, 7);
        for (auto& v : p) {
            double t = g.real(0, 7);
            v = v * 1e-3 + Vector(cos(t), e * sin(t)).rotate(an) * (s * g.real(0.8, 1));
        }
        g.label("ellipse");
        std::string t;
        for (auto& v : p) t += pbt::fmt(" (%.17g,%.17g)", v.x, v.y);
        g.note("%s", t.c_str());
    }
    Circle c;
    if (g.coin()) c = Circle::getMinimumEnclosingCircle(p);
    else {
        // points that are nearly the same are one point in a set
        std::unordered_set<Vector> set(p.begin(), p.end());
        p.assign(set.begin(), set.end());
        c = Circle::getMinimumEnclosingCircle(set);
    }
    double mag = s;
    for (auto& v : p) mag = std::max({mag, fabs(v.x), fabs(v.y)});
    ld tol = 1e-8L * s + 1e-11L * mag;
    std::vector<ld> dir;
    for (auto& v : p) {
        ld e = hypotl(v.x - c.center.x, v.y - c.center.y);
        CHECK(e <= c.radius + tol, "outside", "(%.17g,%.17g) is outside of the circle (%.17g,%.17g) r=%.17g by %Lg", v.x, v.y, c.center.x, c.center.y, c.radius, e - c.radius);
        if (e >= c.radius - 10 * tol) dir.push_back(atan2l(v.y - c.center.y, v.x - c.center.x));
    }
    CHECK(!dir.empty(), "minimal", "no point is on the circle (%.17g,%.17g) r=%.17g", c.center.x, c.center.y, c.radius);
    if (c.radius < 1e3L * tol) return;
    std::sort(dir.begin(), dir.end());
    ld gap = dir[0] + 2 * M_PIl - dir.back();
    for (size_t i = 1; i < dir.size(); i++) gap = std::max(gap, dir[i] - dir[i - 1]);
    // the direction of a point on the circle is known up to the uncertainty of the center
    CHECK(gap <= M_PIl + 0.02L, "minimal", "the points on the circle (%.17g,%.17g) r=%.17g are on one side of it, %Lg is free", c.center.x, c.center.y, c.radius, gap);
}

PROPERTY(enclosing, 120000, 1800000, "the circle around 0..60 points about their mean, and containment; non-trivial: at least two distinct points") {
    double s;
    auto p = gen(g, 0, 60, s);
    Circle c = Circle::getEnclosingCircle(p);
    double mag = s;
    for (auto& v : p) mag = std::max({mag, fabs(v.x), fabs(v.y)});
    CHECK(std::isfinite(c.radius) && std::isfinite(c.center.x) && std::isfinite(c.center.y), "nonfinite", "the circle is (%g,%g) r=%g", c.center.x, c.center.y, c.radius);
    ld far = 0;
    for (auto& v : p) far = std::max(far, hypotl(v.x - c.center.x, v.y - c.center.y));
    ld d = 0;
    for (auto& v : p)
        for (auto& w : p) d = std::max(d, hypotl(v.x - w.x, v.y - w.y));
    g.nontrivial(d > 0);
    CHECK(far <= c.radius + 1e-13L * mag, "outside", "a point is %.17Lg away from the centre, the radius is %.17g", far, c.radius);
    CHECK(c.radius <= d + 1e-13L * mag, "size", "the radius %.17g is larger than the diameter %.17Lg of the points", c.radius, d);
    // containment
    for (int k = 0; k < 4; k++) {
        Vector v = c.center + Vector(g.real(-2, 2), g.real(-2, 2)) * (c.radius + s * 0.1);
        ld e = hypotl(v.x - c.center.x, v.y - c.center.y);
        if (fabsl(e - c.radius) < 1e-12L * mag) continue;
        CHECK(c.contains(v) == (e < c.radius), "contains", "(%.17g,%.17g)", v.x, v.y);
        CHECK(c.containsPoints({c.center, v}) == (e < c.radius), "contains", "points (%.17g,%.17g)", v.x, v.y);
    }
    CHECK(fabsl(c.circumference() - 2 * M_PIl * c.radius) <= 1e-14L * c.radius * 7, "circumference", "circumference %.17g", c.circumference());
}

PROPERTY(through, 120000, 1800000, "the circle through two or three points; non-trivial: three points") {
    double s;
    auto p = gen(g, 3, 3, s);
    double mag = s;
    for (auto& v : p) mag = std::max({mag, fabs(v.x), fabs(v.y)});
    Circle c2 = Circle::getCircleFromPoints(p[0], p[1]);
    ld d = hypotl(p[0].x - p[1].x, p[0].y - p[1].y);
    CHECK(fabsl(c2.radius - d / 2) <= 1e-14L * mag * 4 && fabsl(hypotl(c2.center.x - p[1].x, c2.center.y - p[1].y) - d / 2) <= 1e-14L * mag * 4, "two", "the circle on two points has the radius %.17g, should be %.17Lg", c2.radius, d / 2);
    ld cr = fabsl(scene::cross(p[0], p[1], p[2])), l = std::max({d, hypotl(p[0].x - p[2].x, p[0].y - p[2].y), hypotl(p[1].x - p[2].x, p[1].y - p[2].y)});
    if (cr < 1e-3L * l * l || l < 1e-10L * mag) return;
    g.nontrivial();
    Circle c = Circle::getCircleFromPoints(p[0], p[1], p[2]);
    for (auto& v : p) CHECK(fabsl(hypotl(v.x - c.center.x, v.y - c.center.y) - c.radius) <= 1e-10L * l + 1e-15L * mag, "three", "(%.17g,%.17g) is not on the circle (%.17g,%.17g) r=%.17g", v.x, v.y, c.center.x, c.center.y, c.radius);
}
