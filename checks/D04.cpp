// refinement points around corners
#include "scene.hpp"
using namespace nikfemm;
typedef CurrentDensityProp P;
typedef long double ld;

PROPERTY(refine, 48000, 600000, "a drawing of nested and adjacent shapes before and after the refinement of its corners; non-trivial: at least two shapes and at least one corner that must be refined") {
    scene::Opts o;
    o.maxFaces = 7;
    auto S = scene::make(g, o);
    ASSUME(S.clearance() > 1e-6);
    g.note("%s", S.show().c_str());
    Drawing<P> d;
    S.drawAll(d);
    for (auto& f : S.faces) d.drawRegion(f.seed, {1});
    auto before = d.points;
    auto segs = d.segments;
    ld eps = INFINITY;
    for (size_t i = 0; i < before.size(); i++)
        for (auto& s : segs)
            if (s.p1 != i && s.p2 != i) eps = std::min(eps, scene::segDist(before[i], before[s.p1], before[s.p2]));
    ASSUME(std::isfinite((double)eps));
    size_t npoly = d.polygons.size(), nreg = d.regions.size();
    d.addRefiningPoints();
    CHECK(d.segments.size() == segs.size() && d.polygons.size() == npoly && d.regions.size() == nreg, "changed", "refining changed the segments, polygons or regions");
    for (size_t i = 0; i < segs.size(); i++) CHECK(d.segments[i] == segs[i], "changed", "refining changed segment %zu", i);
    CHECK(d.points.size() >= before.size(), "changed", "refining removed points");
    for (size_t i = 0; i < before.size(); i++) CHECK(d.points[i].x == before[i].x && d.points[i].y == before[i].y, "changed", "refining moved point %zu", i);
    double scale = S.size();
    for (auto& v : before) scale = std::max({scale, fabs(v.x), fabs(v.y)});
    double tol = 1e-13 * scale;
    ASSUME(eps / 200 > 1e3 * tol);
    std::vector<std::vector<Vector>> added(before.size());
    for (size_t i = before.size(); i < d.points.size(); i++) {
        Vector p = d.points[i];
        // the corner it belongs to
        size_t c = 0;
        for (size_t j = 0; j < before.size(); j++)
            if (Vector::distance(p, before[j]) < Vector::distance(p, before[c])) c = j;
        ld dist = hypotl(p.x - before[c].x, p.y - before[c].y);
        CHECK(dist <= eps / 10, "far", "point (%.17g,%.17g) is %Lg away from the nearest corner, the clearance is %Lg", p.x, p.y, dist, eps);
        CHECK(S.faceOf(p) >= 0, "outside", "point (%.17g,%.17g) is in no polygon", p.x, p.y);
        for (auto& s : segs) {
            ld sd = scene::segDist(p, before[s.p1], before[s.p2]);
            CHECK(sd >= eps / 1000, "close", "point (%.17g,%.17g) is %Lg away from a segment, the clearance is %Lg", p.x, p.y, sd, eps);
        }
        for (auto& q : added[c]) CHECK(Vector::distance(p, q) >= dist / 100, "close", "two refinement points at (%.17g,%.17g)", p.x, p.y);
        added[c].push_back(p);
    }
    int must = 0;
    for (size_t c = 0; c < before.size(); c++) {
        std::vector<double> dir;
        for (auto& s : segs) {
            if (s.p1 != c && s.p2 != c) continue;
            Vector e = before[s.p1 == c ? s.p2 : s.p1] - before[c];
            dir.push_back(atan2(e.y, e.x));
        }
        if (dir.size() < 2) continue;
        std::sort(dir.begin(), dir.end());
        double mn = 10;
        for (size_t i = 0; i < dir.size(); i++) {
            double w = i + 1 < dir.size() ? dir[i + 1] - dir[i] : dir[0] + 2 * M_PI - dir[i];
            mn = std::min(mn, w);
            // a sharp corner, wide enough for at least one point: one is inside it unless it is outside of all polygons
            if (w > 86 * M_PI / 180 && w < 119 * M_PI / 180) {
                double mid = dir[i] + w / 2;
                Vector in = before[c] + Vector(cos(mid), sin(mid)) * (double)(eps / 100);
                if (S.faceOf(in) < 0) continue;
                must++;
                bool found = false;
                for (auto& p : added[c]) {
                    double a = atan2(p.y - before[c].y, p.x - before[c].x) - mid;
                    a -= 2 * M_PI * std::round(a / (2 * M_PI));
                    found |= fabs(a) < w / 2;
                }
                CHECK(found, "missing", "the corner of %.0f degrees at (%.17g,%.17g) was not refined", w * 180 / M_PI, before[c].x, before[c].y);
            }
        }
        if (mn > 121 * M_PI / 180) CHECK(added[c].empty(), "blunt", "points were added around (%.17g,%.17g), where the smallest angle is %.1f degrees", before[c].x, before[c].y, mn * 180 / M_PI);
    }
    g.nontrivial(S.faces.size() >= 2 && must);
}
