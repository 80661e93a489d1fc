// quality of the mesh: size, angles, Delaunay
#include "meshing.hpp"
using namespace nikfemm;
using namespace scene;

static ld angleAt(Vector a, Vector b, Vector c) {
    ld x1 = (ld)a.x - b.x, y1 = (ld)a.y - b.y, x2 = (ld)c.x - b.x, y2 = (ld)c.y - b.y;
    return fabsl(atan2l(x1 * y2 - y1 * x2, x1 * x2 + y1 * y2)) * 180 / M_PIl;
}

// triangle.cpp documents one exception: it leaves a skinny triangle alone when the ends of its shortest edge lie inside
// two drawn segments that meet, at the same distance from where they meet (concentric shells of the refinement)
static bool shell(const Scene& S, Vector p, Vector q) {
    for (auto& f : S.faces)
        for (size_t i = 0; i < f.poly.size(); i++) {
            Vector a = f.poly[i];
            ld dp = hypotl((ld)p.x - a.x, (ld)p.y - a.y), dq = hypotl((ld)q.x - a.x, (ld)q.y - a.y);
            if (dp <= 0 || dq <= 0 || fabsl(dp - dq) > 1.1e-3L * dp) continue;
            if (S.edgeDist(p) < 1e-9L * S.size() && S.edgeDist(q) < 1e-9L * S.size()) return true;
        }
    return false;
}

PROPERTY(quality, 8000, 60000, "a drawing meshed with a maximum area and minimum angle: every triangle obeys the area, every triangle obeys the angle when no input angle is below 60 degrees, and edges that are not part of the drawing are locally Delaunay; non-trivial: 20 triangles and either limit active") {
    Opts o;
    o.maxFaces = 6;
    o.minScale = 1e-5, o.maxScale = 1e4;
    o.offset = 3;
    auto S = make(g, o);
    ASSUME(S.clearance() > 1e-7);
    auto P = params(g, S, 2500);
    g.note("area %.17g angle %d refine %d%s", P.area, P.angle, P.refine, S.show().c_str());
    CurrentDensityMesh m;
    S.drawAll(m.drawing);
    for (auto& f : S.faces) m.drawing.drawRegion(f.seed, {1.0});
    if (P.refine) m.drawing.addRefiningPoints();
    m.mesh(P.area, P.angle);
    auto& d = m.data;
    double worst = smallestAngle(S);
    bool angles = worst >= 59.99;
    g.label(angles ? "angles guaranteed" : "small input angles");
    g.nontrivial(d.numberoftriangles >= 20);
    double mag = S.size();
    for (auto& f : S.faces)
        for (auto& v : f.poly) mag = std::max({mag, fabs(v.x), fabs(v.y)});
    for (int i = 0; i < d.numberoftriangles; i++) {
        ld a = fabsl(triArea(d, i));
        CHECK(a <= (ld)P.area * (1 + 1e-9L) + 1e-14L * mag * mag, "area", "triangle %d has the area %.17Lg, the limit is %.17g", i, a, P.area);
        auto& t = d.trianglelist[i].verts;
        if (angles)
            for (int k = 0; k < 3; k++) {
                ld an = angleAt(d.pointlist[t[k]], d.pointlist[t[(k + 1) % 3]], d.pointlist[t[(k + 2) % 3]]);
                if (an >= P.angle - 1e-4L) continue;
                bool sh = false;
                ld shortest = INFINITY;
                for (int j = 0; j < 3; j++) shortest = std::min(shortest, (ld)Vector::distance(d.pointlist[t[j]], d.pointlist[t[(j + 1) % 3]]));
                for (int j = 0; j < 3; j++)
                    if (Vector::distance(d.pointlist[t[j]], d.pointlist[t[(j + 1) % 3]]) < shortest * (1 + 1e-9L)) sh |= shell(S, d.pointlist[t[j]], d.pointlist[t[(j + 1) % 3]]);
                if (sh) {
                    g.label("concentric shell");
                    continue;
                }
                Vector A = d.pointlist[t[k]], C = d.pointlist[t[(k + 2) % 3]];
                CHECK(false, "angle", "triangle %d at (%.17g,%.17g) [(%.17g,%.17g),(%.17g,%.17g)] has an angle of %.6Lg degrees, the limit is %d and the smallest input angle is %g", i, d.pointlist[t[(k + 1) % 3]].x, d.pointlist[t[(k + 1) % 3]].y, A.x, A.y, C.x, C.y, an, P.angle, worst);
            }
    }
    for (auto& [k, v] : edgesOf(d)) {
        if (v.size() != 2) continue;
        Vector a = d.pointlist[k.first], b = d.pointlist[k.second];
        if (S.edgeDist((a + b) / 2) <= 1e-10 * mag) continue;  // part of the drawing
        Vector p = d.pointlist[opposite(d, v[0], k)], q = d.pointlist[opposite(d, v[1], k)];
        ld s = angleAt(a, p, b) + angleAt(a, q, b);
        ld len = hypotl(a.x - b.x, a.y - b.y);
        ld tol = 1e-6L + 1e-13L * mag / len * 180;
        CHECK(s <= 180 + tol, "delaunay", "the angles opposite of the edge (%.17g,%.17g)-(%.17g,%.17g) sum up to %.9Lg degrees", a.x, a.y, b.x, b.y, s);
    }
}
