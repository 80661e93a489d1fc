// the content of a drawing after any history of drawing operations
#include "scene.hpp"
using namespace nikfemm;
typedef CurrentDensityProp P;
typedef long double ld;

struct Model {
    std::vector<Vector> pts;
    std::set<std::pair<int, int>> segs;
    std::vector<std::vector<Vector>> polys;
    std::vector<std::pair<Vector, double>> regions;
    double tol;
    int point(Vector v) {
        for (size_t i = 0; i < pts.size(); i++)
            if (Vector::distance(pts[i], v) < 5e-9) return i;
        pts.push_back(v);
        return pts.size() - 1;
    }
    void polygon(const std::vector<Vector>& p) {
        for (size_t i = 0; i < p.size(); i++) {
            int a = point(p[i]), b = point(p[(i + 1) % p.size()]);
            if (a != b) segs.insert({std::min(a, b), std::max(a, b)});
        }
        polys.push_back(p);
    }
};

static void compare(Drawing<P>& d, Model& m, const char* after) {
    CHECK(d.points.size() == m.pts.size(), "points", "%s: %zu points, should be %zu", after, d.points.size(), m.pts.size());
    std::vector<int> id(d.points.size(), -1);
    std::set<int> used;
    for (size_t i = 0; i < d.points.size(); i++) {
        for (size_t j = 0; j < m.pts.size(); j++)
            if (Vector::distance(d.points[i], m.pts[j]) <= m.tol) id[i] = j;
        CHECK(id[i] >= 0, "points", "%s: point (%.17g,%.17g) was never drawn", after, d.points[i].x, d.points[i].y);
        CHECK(used.insert(id[i]).second, "points", "%s: point (%.17g,%.17g) is there twice", after, d.points[i].x, d.points[i].y);
    }
    std::set<std::pair<int, int>> segs;
    for (auto& s : d.segments) {
        CHECK(s.p1 < d.points.size() && s.p2 < d.points.size() && s.p1 != s.p2, "segments", "%s: segment %u-%u of %zu points", after, s.p1, s.p2, d.points.size());
        int a = id[s.p1], b = id[s.p2];
        CHECK(segs.insert({std::min(a, b), std::max(a, b)}).second, "segments", "%s: segment %d-%d is there twice", after, a, b);
    }
    CHECK(segs == m.segs, "segments", "%s: %zu segments, should be %zu or others", after, segs.size(), m.segs.size());
    CHECK(d.polygons.size() == m.polys.size(), "polygons", "%s: %zu polygons, should be %zu", after, d.polygons.size(), m.polys.size());
    for (size_t k = 0; k < m.polys.size(); k++) {
        auto &a = d.polygons[k].points, &b = m.polys[k];
        size_t n = b.size();
        CHECK(a.size() == n, "polygons", "%s: polygon %zu has %zu vertices, should have %zu", after, k, a.size(), n);
        bool ok = false;
        for (size_t s = 0; s < n && !ok; s++)
            for (int dir = 0; dir < 2 && !ok; dir++) {
                bool all = true;
                for (size_t i = 0; i < n && all; i++) all = Vector::distance(a[dir ? (s + n - i) % n : (s + i) % n], b[i]) <= m.tol;
                ok = all;
            }
        CHECK(ok, "polygons", "%s: the outline of polygon %zu is not the one that was drawn", after, k);
    }
    CHECK(d.regions.size() == m.regions.size(), "regions", "%s: %zu regions, should be %zu", after, d.regions.size(), m.regions.size());
    for (size_t k = 0; k < m.regions.size(); k++) {
        CHECK(Vector::distance(d.regions[k].first, m.regions[k].first) <= m.tol, "regions", "%s: region %zu is at (%.17g,%.17g)", after, k, d.regions[k].first.x, d.regions[k].first.y);
        const P* p = d.getRegionPtrFromId(d.regions[k].second);
        CHECK(p && p->sigma == m.regions[k].second, "regions", "%s: region %zu has the property %g, should be %g", after, k, p->sigma, m.regions[k].second);
    }
    for (size_t i = 0; i < d.region_map.size(); i++)
        for (size_t j = 0; j < i; j++) CHECK(d.region_map[i].sigma != d.region_map[j].sigma, "ids", "%s: property %g has two ids", after, d.region_map[i].sigma);
    bool thrown = false;
    try {
        d.getRegionPtrFromId(d.region_map.size());
    } catch (const std::exception&) {
        thrown = true;
    }
    CHECK(thrown, "ids", "an id that was never given out has a property");
}

PROPERTY(history, 30000, 600000, "a history of 1..40 drawing operations (rectangles, circles, polygons in any overload, points, regions, translations, repeats of what is already drawn, rejected lookups) against a model; non-trivial: at least three shapes, of which two share points or one is repeated, and a region") {
    scene::Opts o;
    o.maxFaces = 8;
    auto S = scene::make(g, o);
    g.note("%s", S.show().c_str());
    Drawing<P> d;
    Model m;
    double scale = S.size();
    for (auto& f : S.faces)
        for (auto& v : f.poly) scale = std::max({scale, fabs(v.x), fabs(v.y)});
    m.tol = 2e-9 + 1e-12 * scale;
    ASSUME(S.clearance() > 1e-7);
    Vector off(0, 0);
    std::vector<double> palette = {1, 2, 0.5, 3e7, 1};
    size_t next = 0;
    int repeats = 0, nreg = 0;
    int n = g.size(1, 40);
    // the shapes in their order, with other operations in between
    for (int k = 0; k < n; k++) {
        int op = g.draw(9);
        if (op <= 4) {
            bool again = next > 0 && g.coin(0.25);
            if (!again && next == S.order.size()) continue;
            auto f = S.faces[S.order[again ? g.draw(next - 1) : next++]];
            repeats += again;
            for (auto& v : f.poly) v += off;
            f.c += off;
            if (again && f.kind != scene::CIRCLE && g.coin()) {
                f.kind = scene::POLYGON;
                if (g.coin()) std::reverse(f.poly.begin(), f.poly.end());
            }
            g.note("shape %d", (int)f.kind);
            switch (f.kind) {
                case scene::RECT: d.drawRectangle(f.poly[0], f.poly[2]); break;
                case scene::RECTWH: d.drawRectangle(f.poly[0], f.poly[2].x - f.poly[0].x, f.poly[2].y - f.poly[0].y); break;
                case scene::CIRCLE:
                    if (g.coin()) d.drawCircle(f.c, f.r, f.n);
                    else d.drawCircle(Circle(f.c, f.r), f.n);
                    break;
                default:
                    switch (g.draw(2)) {
                        case 0: d.drawPolygon(f.poly); break;
                        case 1: d.drawPolygon(f.poly.data(), f.poly.size()); break;
                        default: d.drawPolygon(Polygon(f.poly)); break;
                    }
            }
            m.polygon(f.poly);
        } else if (op == 5) {
            Vector p = off + Vector(g.real(-1, 1), g.real(-1, 1)) * scale;
            if (!m.pts.empty() && g.coin()) {
                p = g.pick(m.pts);
                if (g.coin()) p += Vector(g.real(-3, 3), g.real(-3, 3)) * 1e-11, p.x += 0;
            }
            bool ambiguous = false;
            for (auto& q : m.pts) {
                double e = Vector::distance(p, q);
                ambiguous |= e > 1e-10 && e < 1e-7;
            }
            if (ambiguous) continue;
            g.note("point (%.17g,%.17g)", p.x, p.y);
            d.drawPoint(p);
            m.point(p);
        } else if (op == 6 || op == 7) {
            Vector p = g.pick(S.faces).seed + off;
            double v = g.coin(0.3) ? g.real(0, 5) : g.pick(palette);
            uint32_t before = g.coin() ? d.getRegionId({v}) : ~0u;
            d.drawRegion(p, {v});
            if (before != ~0u) CHECK(d.regions.back().second == before && d.getRegionId({v}) == before, "ids", "property %g changed its id", v);
            m.regions.push_back({p, v});
            nreg++;
        } else if (op == 8) {
            Vector t = g.coin() ? Vector(g.range(-3, 3), g.range(-3, 3)) : Vector(g.real(-1, 1), g.real(-1, 1)) * scale;
            g.note("translate (%.17g,%.17g)", t.x, t.y);
            d.translate(t);
            off += t;
            for (auto& p : m.pts) p += t;
            for (auto& q : m.polys)
                for (auto& p : q) p += t;
            for (auto& r : m.regions) r.first += t;
        } else {
            ld want = INFINITY;
            for (size_t i = 0; i < m.pts.size(); i++)
                for (auto& [a, b] : m.segs)
                    if ((int)i != a && (int)i != b) want = std::min(want, scene::segDist(m.pts[i], m.pts[a], m.pts[b]));
            double got = d.getCurrentEpsilon();
            if (std::isfinite((double)want)) CHECK(fabsl(got - want) <= 2 * m.tol + 1e-9L * want, "clearance", "the smallest distance between a point and a segment is %.17g, should be %.17Lg", got, want);
        }
        compare(d, m, pbt::fmt("operation %d", k).c_str());
    }
    g.nontrivial(m.polys.size() >= 3 && nreg && (repeats || m.pts.size() < m.segs.size()));
}

PROPERTY(circle, 20000, 300000, "one circle or rectangle of any size and position: its vertices, its closed outline and its polygon; non-trivial: a circle of at least four vertices, or a rectangle given by corners in another order") {
    Drawing<P> d;
    double R = g.coin(0.3) ? 1 : g.logreal(1e-4, 1e6);
    Vector c = g.coin(0.3) ? Vector(0, 0) : Vector(g.real(-3, 3), g.real(-3, 3)) * R;
    std::vector<Vector> want;
    double tol = 2e-9 + 1e-11 * R;
    if (g.coin(0.7)) {
        int n = 3 + g.size(0, g.coin(0.03) ? 2500 : 300);
        ASSUME(R * sin(M_PI / n) > 1e-7);
        g.nontrivial(n >= 4);
        g.note("circle (%.17g,%.17g) r=%.17g n=%d", c.x, c.y, R, n);
        if (g.coin()) d.drawCircle(c, R, n);
        else d.drawCircle(Circle(c, R), n);
        for (int i = 0; i < n; i++) want.push_back({c.x + R * (double)cosl(2 * M_PIl * i / n), c.y + R * (double)sinl(2 * M_PIl * i / n)});
        g.label("circle");
    } else {
        Vector q = c + Vector(g.coin() ? 1 : -1, 0) * (R * g.real(0.1, 2)) + Vector(0, g.coin() ? 1 : -1) * (R * g.real(0.1, 2));
        g.nontrivial(q.x < c.x || q.y < c.y);
        g.note("rectangle (%.17g,%.17g) (%.17g,%.17g)", c.x, c.y, q.x, q.y);
        if (g.coin()) d.drawRectangle(c, q);
        else d.drawRectangle(c, q.x - c.x, q.y - c.y);
        want = {c, {q.x, c.y}, q, {c.x, q.y}};
        g.label("rectangle");
    }
    size_t n = want.size();
    CHECK(d.points.size() == n, "vertices", "%zu points instead of %zu", d.points.size(), n);
    CHECK(d.segments.size() == n, "outline", "%zu segments instead of %zu", d.segments.size(), n);
    std::vector<int> id(n, -1);
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n; j++)
            if (Vector::distance(d.points[i], want[j]) <= tol) id[i] = j;
    std::set<int> hit;
    for (auto& s : d.segments) {
        CHECK(id[s.p1] >= 0 && id[s.p2] >= 0, "vertices", "a vertex is not where it should be");
        int a = id[s.p1], b = id[s.p2];
        if ((a + 1) % (int)n != b) std::swap(a, b);
        CHECK((a + 1) % (int)n == b, "outline", "a segment joins vertices %d and %d of %zu", a, b, n);
        hit.insert(a);
    }
    CHECK(hit.size() == n, "outline", "the outline is not closed");
    CHECK(d.polygons.size() == 1 && d.polygons[0].points.size() == n, "polygon", "%zu polygons", d.polygons.size());
    double a = fabs((double)scene::shoelace(d.polygons[0].points)), w = fabs((double)scene::shoelace(want));
    CHECK(fabs(a - w) <= 1e-9 * w + 8 * tol * R, "polygon", "the polygon has the area %.17g, should be %.17g", a, w);
}
