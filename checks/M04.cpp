// gradient and curl of nodal fields
#include "magnetic.hpp"
using namespace nikfemm;
using namespace scene;

template <class M>
static void fields(pbt::Gen& g, M& m) {
    auto& d = m.data;
    int n = d.numberofpoints;
    ld mag = 0;
    for (int i = 0; i < n; i++) mag = std::max({mag, (ld)fabs(d.pointlist[i].x), (ld)fabs(d.pointlist[i].y)});
    // affine
    double a = g.mixed(), b = g.coin(0.1) ? 0 : g.real(-1, 1) * g.logreal(1e-3, 1e3), c = g.coin(0.1) ? 0 : g.real(-1, 1) * g.logreal(1e-3, 1e3);
    if (!std::isfinite(a) || fabs(a) > 1e6) a = 1;
    std::vector<double> z(n), w(n), s(n);
    for (int i = 0; i < n; i++) z[i] = a + b * d.pointlist[i].x + c * d.pointlist[i].y;
    auto grad = m.computeGrad(z), curl = m.computeCurl(z);
    CHECK((int)grad.size() == d.numberoftriangles && (int)curl.size() == d.numberoftriangles, "size", "%zu gradients and %zu curls of %d triangles", grad.size(), curl.size(), d.numberoftriangles);
    auto geo = [&](int i, ld& area2, ld& L) {
        auto& t = d.trianglelist[i].verts;
        area2 = fabsl(cross(d.pointlist[t[0]], d.pointlist[t[1]], d.pointlist[t[2]]));
        L = 0;
        for (int k = 0; k < 3; k++) L = std::max(L, (ld)Vector::distance(d.pointlist[t[k]], d.pointlist[t[(k + 1) % 3]]));
    };
    for (int i = 0; i < d.numberoftriangles; i++) {
        ld A, L;
        geo(i, A, L);
        if (A < 1e-11L * L * L) continue;  // without a minimum angle the triangulator may leave triangles that are flat up to rounding
        // the nodal values are rounded
        ld zm = fabsl(a) + (fabsl(b) + fabsl(c)) * mag;
        ld tol = (L / A) * (1 + L * L / A) * (zm + (fabsl(b) + fabsl(c)) * L) * 64 * 2.3e-16L;
        CHECK(fabsl(grad[i].x - b) <= tol && fabsl(grad[i].y - c) <= tol, "gradient", "the gradient of %.17g + %.17g x + %.17g y is (%.17g,%.17g) on triangle %d", a, b, c, grad[i].x, grad[i].y, i);
        CHECK(fabsl(curl[i].x - c) <= tol && fabsl(curl[i].y + b) <= tol, "curl", "the curl of %.17g + %.17g x + %.17g y is (%.17g,%.17g) on triangle %d", a, b, c, curl[i].x, curl[i].y, i);
    }
    // any field, against the interpolant of every element; linearity
    double al = g.real(-3, 3), be = g.real(-3, 3), k = g.real(-10, 10);
    for (int i = 0; i < n; i++) w[i] = g.coin(0.2) ? 0 : g.real(-1, 1) * g.logreal(1e-3, 1e3);
    for (int i = 0; i < n; i++) s[i] = al * z[i] + be * w[i] + k;
    std::vector<double> w0 = w;
    auto gw = m.computeGrad(w), cw = m.computeCurl(w), gs = m.computeGrad(s), cs = m.computeCurl(s);
    CHECK(w == w0, "input", "the field was changed");
    ld zm = 0;
    for (int i = 0; i < n; i++) zm = std::max({zm, (ld)fabs(z[i]), (ld)fabs(w[i]), (ld)fabs(s[i])});
    for (int i = 0; i < d.numberoftriangles; i++) {
        ld A, L;
        geo(i, A, L);
        if (A < 1e-11L * L * L) continue;  // without a minimum angle the triangulator may leave triangles that are flat up to rounding
        auto& t = d.trianglelist[i].verts;
        Vector p = d.pointlist[t[0]], q = d.pointlist[t[1]], r = d.pointlist[t[2]];
        ld D = cross(p, q, r), u = (ld)w[t[1]] - w[t[0]], v = (ld)w[t[2]] - w[t[0]];
        ld gx = (u * ((ld)r.y - p.y) - v * ((ld)q.y - p.y)) / D, gy = (v * ((ld)q.x - p.x) - u * ((ld)r.x - p.x)) / D;
        ld tol = (L / A) * (1 + L * L / A) * (fabsl(u) + fabsl(v)) * 64 * 2.3e-16L;
        CHECK(fabsl(gw[i].x - gx) <= tol && fabsl(gw[i].y - gy) <= tol, "interpolant", "the gradient is (%.17g,%.17g) on triangle %d, should be (%.17Lg,%.17Lg)", gw[i].x, gw[i].y, i, gx, gy);
        CHECK(fabsl(cw[i].x - gy) <= tol && fabsl(cw[i].y + gx) <= tol, "interpolant", "the curl is (%.17g,%.17g) on triangle %d, should be (%.17Lg,%.17Lg)", cw[i].x, cw[i].y, i, gy, -gx);
        ld tl = (L / A) * (1 + L * L / A) * zm * (fabsl(al) + fabsl(be) + 1) * 64 * 2.3e-16L;
        CHECK(fabsl(gs[i].x - (al * (ld)grad[i].x + be * (ld)gw[i].x)) <= tl && fabsl(gs[i].y - (al * (ld)grad[i].y + be * (ld)gw[i].y)) <= tl, "linear", "gradient not linear on triangle %d", i);
        CHECK(fabsl(cs[i].x - (al * (ld)curl[i].x + be * (ld)cw[i].x)) <= tl && fabsl(cs[i].y - (al * (ld)curl[i].y + be * (ld)cw[i].y)) <= tl, "linear", "curl not linear on triangle %d", i);
    }
}

PROPERTY(conductors, 6000, 40000, "linear and random nodal fields on the mesh of a generated drawing: gradient and curl of every element against the exact interpolant, linearity and independence of a constant; non-trivial: at least 10 triangles") {
    Opts o;
    o.maxFaces = 5;
    o.minScale = 1e-3, o.maxScale = 1e3;
    auto S = make(g, o);
    ASSUME(S.clearance() > 1e-7);
    auto P = params(g, S, 300);
    g.note("area %.17g angle %d refine %d%s", P.area, P.angle, P.refine, S.show().c_str());
    CurrentDensityMesh m;
    S.drawAll(m.drawing);
    for (auto& f : S.faces) m.drawing.drawRegion(f.seed, {1.0});
    if (P.refine) m.drawing.addRefiningPoints();
    m.mesh(P.area, P.angle);
    g.nontrivial(m.data.numberoftriangles >= 10);
    fields(g, m);
}

PROPERTY(exterior, 3000, 15000, "the same on magnetostatic meshes with their transformed exterior, where elements have either orientation; non-trivial: always") {
    Opts o;
    o.maxFaces = 3;
    o.minScale = 1e-2, o.maxScale = 1e2;
    MagOpts mo;
    auto M = makeMag(g, o, mo, 200);
    ASSUME(M.S.clearance() > 1e-6);
    g.note("%s", M.show().c_str());
    MagnetostaticSimulation sim;
    M.draw(sim);
    M.generate(sim);
    g.nontrivial(true);
    fields(g, sim.mesh);
}
