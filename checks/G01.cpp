// polygon containment against exact arithmetic
#include "scene.hpp"
using namespace nikfemm;
typedef long double ld;
struct I {
    int64_t x, y;
    bool operator==(const I& o) const { return x == o.x && y == o.y; }
};
static int64_t cr(I a, I b, I c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static int sg(int64_t v) { return (v > 0) - (v < 0); }
static bool on(I p, I a, I b) { return cr(a, b, p) == 0 && (p.x - a.x) * (p.x - b.x) + (p.y - a.y) * (p.y - b.y) <= 0; }
static bool meet(I a, I b, I c, I d) { return on(a, c, d) || on(b, c, d) || on(c, a, b) || on(d, a, b) || (sg(cr(a, b, c)) * sg(cr(a, b, d)) < 0 && sg(cr(c, d, a)) * sg(cr(c, d, b)) < 0); }
static bool simple(const std::vector<I>& p) {
    size_t n = p.size();
    for (size_t i = 0; i < n; i++)
        for (size_t j = i + 1; j < n; j++) {
            if (p[i] == p[j]) return false;
            if (j == i + 1 || (i == 0 && j == n - 1)) continue;
            if (meet(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n])) return false;
        }
    // consecutive edges must not fold back
    for (size_t i = 0; i < n; i++) {
        I a = p[i], b = p[(i + 1) % n], c = p[(i + 2) % n];
        if (cr(a, b, c) == 0 && (a.x - b.x) * (c.x - b.x) + (a.y - b.y) * (c.y - b.y) > 0) return false;
    }
    return true;
}
// 1 inside, 0 on the boundary, -1 outside
static int where(I q, const std::vector<I>& p) {
    size_t n = p.size();
    int w = 0;
    for (size_t i = 0; i < n; i++) {
        I a = p[i], b = p[(i + 1) % n];
        if (on(q, a, b)) return 0;
        if (a.y <= q.y && b.y > q.y && cr(a, b, q) > 0) w++;
        if (a.y > q.y && b.y <= q.y && cr(a, b, q) < 0) w--;
    }
    return w ? 1 : -1;
}
static std::vector<I> genPoly(pbt::Gen& g, int R) {
    std::vector<I> p;
    int n = 3 + g.size(0, 9);
    bool many = g.coin(0.03);
    if (many) g.label("many vertices");
    if (many && g.coin()) {
        // a star of many points
        n = 20 + g.size(0, 250);
        double lo = g.real(0.2, 1);
        for (int i = 0; i < n; i++) {
            double a = 2 * M_PI * i / n, r = 20000 * g.real(lo, 1);
            p.push_back({(int64_t)(r * cos(a)), (int64_t)(r * sin(a))});
        }
    } else switch (many ? 1 : g.draw(2)) {
        case 0: {  // around a centre, sorted by angle
            std::set<std::pair<int64_t, int64_t>> s;
            for (int i = 0; i < n; i++) {
                int64_t x = g.range(-R, R), y = g.range(-R, R);
                if (x || y) s.insert({x, y});
            }
            for (auto& [x, y] : s) p.push_back({x, y});
            std::sort(p.begin(), p.end(), [](I a, I b) { return atan2l(a.y, a.x) < atan2l(b.y, b.x); });
            break;
        }
        case 1: {  // monotone staircase or sawtooth with horizontal and vertical edges
            int k = 1 + g.draw(many ? 120 : 5);
            int64_t x = 0;
            for (int i = 0; i < k; i++) {
                int64_t y = g.range(1, R);
                p.push_back({x, y});
                x += g.range(1, 4);
                p.push_back({x, y});
            }
            p.push_back({x, 0});
            if (g.coin() && x > 1) p.push_back({x / 2, 0});
            p.push_back({0, 0});
            break;
        }
        default:
            for (int i = 0; i < n; i++) p.push_back({g.range(-R, R), g.range(-R, R)});
    }
    // remove repeated vertices
    std::vector<I> q;
    for (auto& v : p)
        if (q.empty() || !(q.back() == v)) q.push_back(v);
    while (q.size() > 1 && q.front() == q.back()) q.pop_back();
    if (g.coin() && q.size()) std::reverse(q.begin(), q.end());
    if (g.coin() && q.size()) std::rotate(q.begin(), q.begin() + g.draw(q.size() - 1), q.end());
    return q;
}

PROPERTY(lattice, 120000, 2400000, "a simple lattice polygon (any winding, any first vertex, collinear vertices, horizontal and vertical edges) and 12 lattice or half-lattice points, many on its vertices, edges or level with them; non-trivial: at least four vertices, and points on both sides") {
    int R = 2 + g.size(0, 30);
    auto p = genPoly(g, R);
    ASSUME(p.size() >= 3 && simple(p));
    double sc = ldexp(1, (int)g.range(-20, 20));
    I off{g.range(-1000, 1000) * 2, g.range(-1000, 1000) * 2};
    for (auto& v : p) v.x = v.x * 2 + off.x, v.y = v.y * 2 + off.y;
    std::string t;
    std::vector<Vector> pv;
    for (auto& v : p) pv.push_back({v.x * sc, v.y * sc}), t += pbt::fmt(" (%d,%d)", (int)v.x, (int)v.y);
    g.note("polygon%s times %.17g", t.c_str(), sc);
    Polygon P = g.coin() ? Polygon(pv) : Polygon(pv.data(), pv.size());
    bool in = false, out = false;
    std::vector<I> pts;
    for (int k = 0; k < 12; k++) {
        I q;
        I a = g.pick(p);
        switch (g.draw(5)) {
            case 5: q = {a.x + g.range(-3, 3), a.y + g.range(-3, 3)}; break;  // beside a vertex
            case 0: q = a; break;
            case 1: q = {off.x + g.range(-2 * R, 2 * R), a.y}; break;
            case 2: q = {a.x, off.y + g.range(-2 * R, 2 * R)}; break;
            case 3: {
                size_t i = g.draw(p.size() - 1);
                I b = p[i], c = p[(i + 1) % p.size()];
                q = {(b.x + c.x) / 2, (b.y + c.y) / 2};
                break;
            }
            default: q = {off.x + g.range(-2 * R - 1, 2 * R + 1), off.y + g.range(-2 * R - 1, 2 * R + 1)};
        }
        pts.push_back(q);
        int w = where(q, p);
        in |= w > 0, out |= w < 0;
        Vector v(q.x * sc, q.y * sc);
        bool got = P.contains(v);
        CHECK(got == (w >= 0), "contains", "point (%d,%d) is %s, contains says %d", (int)q.x, (int)q.y, w > 0 ? "inside" : w ? "outside" : "on the boundary", got);
        // with a tolerance
        ld d = INFINITY;
        for (size_t i = 0; i < pv.size(); i++) d = std::min(d, scene::segDist(v, pv[i], pv[(i + 1) % pv.size()]));
        double eps = g.coin() ? sc * g.real(0, 3) : sc * 1e-3;
        if (fabsl(d - eps) > 1e-6 * sc) {
            bool near = d <= eps;
            CHECK(P.contains(v, true, eps) == (w >= 0 || near), "tolerance", "point (%d,%d) at %Lg of the boundary, tolerance %g, boundary counts", (int)q.x, (int)q.y, d / sc, eps / sc);
            CHECK(P.contains(v, false, eps) == (w > 0 && !near), "tolerance", "point (%d,%d) at %Lg of the boundary, tolerance %g, boundary does not count", (int)q.x, (int)q.y, d / sc, eps / sc);
        }
    }
    g.nontrivial(p.size() >= 4 && in && out);
    // polygons in polygons
    std::vector<Vector> sub;
    bool all = true;
    for (int i = 0; i < 3; i++) {
        I q = g.pick(pts);
        sub.push_back({q.x * sc, q.y * sc});
        all &= where(q, p) >= 0;
    }
    CHECK(P.contains(Polygon(sub)) == all, "polygon", "a polygon whose vertices are%s all inside", all ? "" : " not");
    CHECK(P.contains(P), "polygon", "a polygon does not contain itself");
}

PROPERTY(real, 60000, 1200000, "a polygon of a generated scene with real coordinates and points at a distance from its boundary; moved and turned together with the points; non-trivial: points on both sides") {
    scene::Opts o;
    o.maxFaces = 4;
    o.minScale = 1e-6, o.maxScale = 1e6;
    auto S = scene::make(g, o);
    g.note("%s", S.show().c_str());
    auto& f = g.pick(S.faces);
    Polygon P(f.poly), Q(P), T = P.copy();
    double s = scene::diameter(f.poly), mag = s;
    for (auto& v : f.poly) mag = std::max({mag, fabs(v.x), fabs(v.y)});
    Vector move(g.real(-2, 2) * s, g.real(-2, 2) * s), c(f.poly[0].x + g.real(-1, 1) * s, f.poly[0].y + g.real(-1, 1) * s);
    double an = g.real(-7, 7);
    CHECK(P == Q && !(P != Q), "equal", "a copy is different");
    Q.translate(move);
    T.rotate(an, c);
    for (size_t i = 0; i < f.poly.size(); i++) {
        ld dx = (ld)f.poly[i].x - c.x, dy = (ld)f.poly[i].y - c.y;
        ld rx = c.x + dx * cosl(an) - dy * sinl(an), ry = c.y + dx * sinl(an) + dy * cosl(an);
        CHECK(hypotl(T.points[i].x - rx, T.points[i].y - ry) <= 1e-14L * mag * 10, "rotate", "vertex %zu is turned to (%.17g,%.17g) instead of (%.17Lg,%.17Lg)", i, T.points[i].x, T.points[i].y, rx, ry);
        CHECK(hypotl(Q.points[i].x - ((ld)f.poly[i].x + move.x), Q.points[i].y - ((ld)f.poly[i].y + move.y)) <= 1e-14L * mag * 10, "translate", "vertex %zu", i);
        CHECK(P.points[i].x == f.poly[i].x && P.points[i].y == f.poly[i].y, "copy", "moving a copy moved the polygon");
    }
    if (s > 1e-6) {
        Polygon R(P);
        R.points[g.draw(R.points.size() - 1)] += Vector(0.01, 0) * s;
        CHECK(R != P && !(R == P), "equal", "different polygons are equal");
    }
    bool in = false, out = false;
    for (int k = 0; k < 10; k++) {
        Vector v = g.coin(0.3) ? g.pick(f.poly) + Vector(g.real(-1, 1), g.real(-1, 1)) * (0.1 * s) : f.poly[0] + Vector(g.real(-1.2, 1.2), g.real(-1.2, 1.2)) * s;
        if (g.coin(0.2)) v.y = g.pick(f.poly).y;
        if (g.coin(0.2)) v.x = g.pick(f.poly).x;
        if (scene::polyDist(v, f.poly) < 1e-9 * mag) continue;
        bool w = scene::inside(v, f.poly);
        in |= w, out |= !w;
        CHECK(P.contains(v) == w, "contains", "point (%.17g,%.17g)", v.x, v.y);
        CHECK(Q.contains(v + move) == w, "translate", "point (%.17g,%.17g) and the polygon moved by the same vector", v.x, v.y);
        CHECK(T.contains(v.rotate(an, c)) == w, "rotate", "point (%.17g,%.17g) and the polygon turned by the same angle", v.x, v.y);
    }
    g.nontrivial(in && out);
}
