// the mesh is a conforming triangulation of exactly the drawing
#include "meshing.hpp"
using namespace nikfemm;
using namespace scene;

// checks that need the mesh of the scene S, with extra points drawn inside it
static void check(pbt::Gen& g, const Scene& S, CurrentDensityMesh& m) {
    auto& d = m.data;
    auto e = checkConforming(d);
    double size = S.size(), mag = size;
    for (auto& f : S.faces)
        for (auto& v : f.poly) mag = std::max({mag, fabs(v.x), fabs(v.y)});
    ld tol = 1e-12L * mag;
    ld total = 0;
    for (int i = 0; i < d.numberoftriangles; i++) {
        total += fabsl(triArea(d, i));
        CHECK(S.faceOf(centroid(d, i)) >= 0, "outside", "triangle %d at (%.17g,%.17g) is outside of the drawing", i, centroid(d, i).x, centroid(d, i).y);
    }
    CHECK(fabsl(total - S.total()) <= 1e-9L * S.total() + 100 * tol * mag, "area", "the triangles have the area %.17Lg, the drawing has %.17g", total, S.total());
    // triangles on both sides of an edge; edges with one triangle only on the outline
    for (auto& [k, v] : e) {
        if (v.size() == 2) {
            int a = opposite(d, v[0], k), b = opposite(d, v[1], k);
            ld x = cross(d.pointlist[k.first], d.pointlist[k.second], d.pointlist[a]), y = cross(d.pointlist[k.first], d.pointlist[k.second], d.pointlist[b]);
            CHECK((x > 0) != (y > 0), "overlap", "the triangles of edge %d-%d are on the same side", k.first, k.second);
        } else {
            Vector p = (d.pointlist[k.first] + d.pointlist[k.second]) / 2;
            CHECK(S.edgeDist(p) <= 100 * tol, "gap", "edge (%.17g,%.17g)-(%.17g,%.17g) has one triangle and is not on the outline", d.pointlist[k.first].x, d.pointlist[k.first].y, d.pointlist[k.second].x, d.pointlist[k.second].y);
        }
    }
    // every point and segment of the drawing is in the mesh
    std::map<std::pair<double, double>, int> at;
    for (int i = 0; i < d.numberofpoints; i++) CHECK(at.insert({{d.pointlist[i].x, d.pointlist[i].y}, i}).second, "duplicate", "vertex (%.17g,%.17g) is there twice", d.pointlist[i].x, d.pointlist[i].y);
    for (auto& p : m.drawing.points) CHECK(at.count({p.x, p.y}), "point", "point (%.17g,%.17g) of the drawing is not a vertex", p.x, p.y);
    for (auto& s : m.drawing.segments) {
        Vector a = m.drawing.points[s.p1], b = m.drawing.points[s.p2];
        std::vector<std::pair<ld, int>> on;
        ld l2 = ((ld)b.x - a.x) * ((ld)b.x - a.x) + ((ld)b.y - a.y) * ((ld)b.y - a.y);
        for (int i = 0; i < d.numberofpoints; i++)
            if (segDist(d.pointlist[i], a, b) <= 10 * tol) on.push_back({(((ld)d.pointlist[i].x - a.x) * ((ld)b.x - a.x) + ((ld)d.pointlist[i].y - a.y) * ((ld)b.y - a.y)) / l2, i});
        std::sort(on.begin(), on.end());
        for (size_t i = 0; i + 1 < on.size(); i++) CHECK(e.count(edge(on[i].second, on[i + 1].second)), "segment", "the segment (%.17g,%.17g)-(%.17g,%.17g) of the drawing is not covered by edges", a.x, a.y, b.x, b.y);
    }
}

PROPERTY(scenes, 4000, 60000, "a drawing of nested and adjacent shapes with extra points inside, meshed with any area, angle and corner refinement: vertices, edges, area and outline of the mesh, and once more after it is meshed again; non-trivial: at least two shapes and 20 triangles") {
    Opts o;
    o.maxFaces = 7;
    o.minScale = 1e-4, o.maxScale = 1e4;
    auto S = make(g, o);
    ASSUME(S.clearance() > 1e-7);
    auto P = params(g, S, 1500);
    if (g.coin(0.003)) P.area = S.total() / g.logreal(3e4, 1.2e5);
    g.note("area %.17g angle %d refine %d%s", P.area, P.angle, P.refine, S.show().c_str());
    CurrentDensityMesh m;
    S.drawAll(m.drawing);
    for (auto& f : S.faces) m.drawing.drawRegion(f.seed, {1.0});
    if (P.refine) m.drawing.addRefiningPoints();
    int extra = g.coin(0.3) ? g.size(1, 20) : 0;
    double sz = S.size();
    for (int i = 0; i < extra; i++) {
        Vector p = g.pick(S.faces).seed + Vector(g.real(-0.1, 0.1), g.real(-0.1, 0.1)) * sz;
        if (S.faceOf(p) < 0 || S.edgeDist(p) < 1e-3 * sz) continue;
        bool close = false;
        for (auto& q : m.drawing.points) close |= Vector::distance(p, q) < 1e-3 * sz;
        if (close) continue;
        m.drawing.drawPoint(p);
        g.label("extra points");
    }
    // points exactly on the segments drawn: they divide them
    int on = g.coin(0.3) ? g.size(1, 12) : 0;
    for (int i = 0; i < on; i++) {
        auto& s = m.drawing.segments[g.draw(m.drawing.segments.size() - 1)];
        Vector a = m.drawing.points[s.p1], b = m.drawing.points[s.p2], p;
        double t = g.coin() ? (1 + (int)g.draw(14)) / 16. : g.real(0.01, 0.99);
        p = {a.x + (b.x - a.x) * t, a.y + (b.y - a.y) * t};
        if (((__float128)b.x - a.x) * ((__float128)p.y - a.y) != ((__float128)b.y - a.y) * ((__float128)p.x - a.x)) continue;
        bool close = false;
        for (auto& q : m.drawing.points) close |= Vector::distance(p, q) < 1e-3 * sz;
        if (close) continue;
        m.drawing.drawPoint(p);
        g.label("points on segments");
        g.note("point (%.17g,%.17g)", p.x, p.y);
    }
    m.mesh(P.area, P.angle);
    check(g, S, m);
    g.nontrivial(S.faces.size() >= 2 && m.data.numberoftriangles >= 20);
    if (g.coin(0.2)) {
        g.label("meshed twice");
        int n = m.data.numberoftriangles;
        if (g.coin()) {
            m.mesh(P.area, P.angle);
            CHECK(m.data.numberoftriangles == n, "again", "%d triangles, and %d when meshed again", n, m.data.numberoftriangles);
        } else
            m.mesh(P.area * g.real(0.5, 2), P.angle);
        check(g, S, m);
    }
}

PROPERTY(epsilon, 3000, 40000, "the mesh resolution (half of the shortest edge) against all edges; non-trivial: at least 20 triangles") {
    Opts o;
    o.maxFaces = 4;
    if (g.coin(0.2)) o.offset = 1e6, g.label("far from the origin");
    auto S = make(g, o);
    ASSUME(S.clearance() > 1e-7);
    auto P = params(g, S, 300);
    g.note("area %.17g angle %d%s", P.area, P.angle, S.show().c_str());
    CurrentDensityMesh m;
    S.drawAll(m.drawing);
    for (auto& f : S.faces) m.drawing.drawRegion(f.seed, {1.0});
    m.mesh(P.area, P.angle);
    m.computeEpsilon();
    ld w = INFINITY;
    for (auto& [k, v] : edgesOf(m.data)) w = std::min(w, hypotl(m.data.pointlist[k.first].x - m.data.pointlist[k.second].x, m.data.pointlist[k.first].y - m.data.pointlist[k.second].y));
    g.nontrivial(m.data.numberoftriangles >= 20);
    CHECK(fabsl(m.epsilon - w / 2) <= 1e-12L * w, "epsilon", "epsilon is %.17g, the shortest edge is %.17Lg", m.epsilon, w);
    // bounding data of single elements
    for (int i = 0; i < std::min(40, m.data.numberoftriangles); i++) {
        ld a = triArea(m.data, i);
        Vector c = centroid(m.data, i), b = m.data.getElemBarycenter(i);
        double mag = fabs(c.x) + fabs(c.y) + S.size();
        ld l2 = 0;  // the square of the longest edge
        for (int k = 0; k < 3; k++) l2 = std::max(l2, powl(hypotl(m.data.pointlist[m.data.trianglelist[i].verts[k]].x - m.data.pointlist[m.data.trianglelist[i].verts[(k + 1) % 3]].x, m.data.pointlist[m.data.trianglelist[i].verts[k]].y - m.data.pointlist[m.data.trianglelist[i].verts[(k + 1) % 3]].y), 2));
        auto& t = m.data.trianglelist[i].verts;
        CHECK(fabsl(m.data.getOrientedArea(i) - a) <= 1e-14L * l2 && fabsl(m.data.getArea(i) - fabsl(a)) <= 1e-14L * l2 && fabsl(m.data.getDoubleOrientedArea(i) - 2 * a) <= 2e-14L * l2, "elem", "the area of element %d is %.17g, should be %.17Lg", i, m.data.getArea(i), a);
        CHECK(fabsl(m.data.getOrientedArea(t[1], t[0], t[2]) + a) <= 1e-14L * l2 && fabsl(m.data.getArea(t[1], t[0], t[2]) - fabsl(a)) <= 1e-14L * l2, "elem", "the area of element %d turned around", i);
        CHECK(Vector::distance(c, b) <= 1e-14 * mag, "elem", "the barycentre of element %d is (%.17g,%.17g)", i, b.x, b.y);
        if (fabsl(a) > 1e-12L) {
            CHECK(m.data.pointInElem(i, c), "elem", "element %d does not contain its barycentre", i);
            int j = (i + 1 + g.draw(m.data.numberoftriangles - 2 > 0 ? m.data.numberoftriangles - 2 : 0)) % m.data.numberoftriangles;
            if (j != i) CHECK(!m.data.pointInElem(j, c), "elem", "element %d contains the barycentre of element %d", j, i);
        }
    }
}
