// the exterior of a magnetostatic mesh closes it
#include "magnetic.hpp"
using namespace nikfemm;
using namespace scene;

PROPERTY(closed, 2000, 20000, "a magnetostatic drawing (also a single small shape in a coarse mesh, with refined corners and magnets): the mesh is a closed surface, exterior and interior meet in the circle only, and the exterior is a transformed disk of air; non-trivial: at least 100 triangles") {
    Opts o;
    o.maxFaces = 5;
    o.minScale = 1e-4, o.maxScale = 1e4;
    MagOpts mo;
    auto M = makeMag(g, o, mo, g.coin(0.1) ? 3000 : 400);
    ASSUME(M.S.clearance() > 1e-6);
    if (g.coin(0.2)) M.area *= g.logreal(1, 1e6), g.label("coarse");
    if (g.coin(0.3) && canRefineMagnets(M, 3000)) M.refineMagnets = true, g.label("refined magnets");
    g.note("%s", M.show().c_str());
    MagnetostaticSimulation sim;
    M.draw(sim);
    auto sys = M.generate(sim);
    auto& d = sim.mesh.data;
    double R = sim.mesh.radius;
    Vector C = sim.mesh.center;
    double mag = std::max({R, fabs(C.x), fabs(C.y)});
    CHECK(std::isfinite(R) && R > 0, "radius", "the radius is %g", R);
    // the drawing is inside the circle
    for (auto& f : M.S.faces)
        for (auto& v : f.poly) CHECK(Vector::distance(v, C) < R, "surround", "(%.17g,%.17g) is outside of the circle around (%.17g,%.17g) with radius %.17g", v.x, v.y, C.x, C.y, R);
    CHECK(sys.A.m == (uint32_t)d.numberofpoints && sys.b.size() == (size_t)d.numberofpoints, "system", "%u rows and %zu right-hand sides for %d vertices", sys.A.m, sys.b.size(), d.numberofpoints);
    auto e = checkConforming(d);
    for (auto& [k, v] : e) CHECK(v.size() == 2, "border", "edge (%.17g,%.17g)-(%.17g,%.17g) has %zu triangles", d.pointlist[k.first].x, d.pointlist[k.first].y, d.pointlist[k.second].x, d.pointlist[k.second].y, v.size());
    CHECK((long)d.numberofpoints - (long)e.size() + d.numberoftriangles == 2, "sphere", "%d vertices, %zu edges and %d triangles are not a sphere", d.numberofpoints, e.size(), d.numberoftriangles);
    g.nontrivial(d.numberoftriangles >= 100);
    // interior, circle, exterior
    std::vector<int> side(d.numberofpoints);
    int onCircle = 0, outside = 0;
    for (int i = 0; i < d.numberofpoints; i++) {
        double r = hypot(d.pointlist[i].x, d.pointlist[i].y);
        CHECK(r <= R * 100 * (1 + 1e-9), "far", "vertex %d is at %g radii", i, r / R);
        side[i] = r < R * (1 - 1e-9) ? -1 : r > R * (1 + 1e-9) ? 1 : 0;
        onCircle += side[i] == 0;
        outside += side[i] > 0;
    }
    CHECK(onCircle >= 32, "circle", "%d vertices on the circle", onCircle);
    CHECK(outside >= 1, "exterior", "no vertex outside of the circle");
    // triangles of the exterior: flood from the vertices outside without crossing the circle
    std::vector<int> ext(d.numberoftriangles, -1);
    std::vector<uint32_t> todo;
    for (int i = 0; i < d.numberoftriangles; i++) {
        bool in = false, out = false;
        for (int k = 0; k < 3; k++) in |= side[d.trianglelist[i].verts[k]] < 0, out |= side[d.trianglelist[i].verts[k]] > 0;
        CHECK(!(in && out), "mixed", "triangle %d has vertices on both sides of the circle", i);
        if (in) ext[i] = 0;
        if (out) ext[i] = 1;
        if (in || out) todo.push_back(i);
    }
    auto neighboursOnCircle = [&](Edge k) {
        if (side[k.first] || side[k.second]) return false;
        // an edge of the circle joins consecutive vertices of it
        ld a = Vector::distance(d.pointlist[k.first], d.pointlist[k.second]);
        return a < 2 * R * sin(M_PI / onCircle) * 1.0001;
    };
    int rim = 0;
    for (auto& [k, v] : e) rim += neighboursOnCircle(k);
    CHECK(rim == onCircle, "circle", "%d edges join neighbours of the %d vertices on the circle", rim, onCircle);
    while (!todo.empty()) {
        uint32_t t = todo.back();
        todo.pop_back();
        for (int k = 0; k < 3; k++) {
            Edge ed = edge(d.trianglelist[t].verts[k], d.trianglelist[t].verts[(k + 1) % 3]);
            if (neighboursOnCircle(ed)) continue;
            for (uint32_t u : e[ed])
                if (ext[u] < 0) ext[u] = ext[t], todo.push_back(u);
                else CHECK(ext[u] == ext[t], "leak", "interior and exterior meet off the circle");
        }
    }
    ld inner = 0, outer = 0, poly = onCircle * R * (ld)R * sinl(2 * M_PIl / onCircle) / 2;
    int sign = 0;
    for (int i = 0; i < d.numberoftriangles; i++) {
        auto p = sim.mesh.drawing.getRegionPtrFromId(d.triangleattributelist[i]);
        auto& t = d.trianglelist[i].verts;
        if (ext[i] == 1) {
            CHECK(p->J == 0 && p->M.x == 0 && p->M.y == 0 && p->mu == magnetostatic_materials::air && p->bh_curve.empty(), "air", "the exterior triangle %d is not air: %s", i, show(*p).c_str());
            Vector q[3];
            for (int k = 0; k < 3; k++) {
                q[k] = d.pointlist[t[k]];
                if (side[t[k]] > 0) q[k] = q[k] * (R * R / (q[k].x * q[k].x + q[k].y * q[k].y));
            }
            ld a = cross(q[0], q[1], q[2]) / 2;
            if (!sign) sign = a > 0 ? 1 : -1;
            CHECK(a * sign > 0, "fold", "the exterior is folded at triangle %d", i);
            outer += fabsl(a);
        } else {
            CHECK(ext[i] == 0, "unattached", "triangle %d is neither in the interior nor in the exterior", i);
            inner += fabsl(triArea(d, i));
            int f = elemFace(M, sim, i);
            auto want = f < 0 ? MagnetostaticProp{0, {0, 0}, magnetostatic_materials::air, {}} : M.prop[f];
            CHECK(sameProp(*p, want), "property", "triangle %d has %s, its region #%d has %s", i, show(*p).c_str(), f, show(want).c_str());
        }
    }
    CHECK(fabsl(inner - poly) <= 1e-9L * poly + 1e-12L * mag * R, "interior", "the interior has the area %.17Lg, the circle has %.17Lg", inner, poly);
    CHECK(fabsl(outer - poly) <= 1e-7L * poly, "exterior", "the exterior transforms back to the area %.17Lg, the circle has %.17Lg", outer, poly);
}
