// linear magnetostatics: solution, superposition, scaling, rigid motion
#include "magref.hpp"
using namespace nikfemm;
using namespace scene;

struct Run {
    std::vector<double> A;
    std::vector<Vector> B;
    std::vector<Vector> pts;
    ld energy = 0;  // of the field within the circle; with a net current that of the rest has no bound
};
static Run run(const MagScene& M, MagnetostaticSimulation& sim) {
    Run r;
    M.draw(sim);
    auto sys = M.generate(sim);
    r.A = sim.solve(sys);
    auto& d = sim.mesh.data;
    CHECK(r.A.size() == (size_t)d.numberofpoints, "size", "%zu potentials for %d vertices", r.A.size(), d.numberofpoints);
    for (size_t i = 0; i < r.A.size(); i++) CHECK(std::isfinite(r.A[i]), "nonfinite", "the potential %zu is %g", i, r.A[i]);
    r.B = sim.mesh.computeCurl(r.A);
    r.pts.assign(&d.pointlist[0], &d.pointlist[0] + d.numberofpoints);
    for (int i = 0; i < d.numberoftriangles; i++) {
        bool in = true;
        for (int k = 0; k < 3; k++) {
            Vector p = d.pointlist[d.trianglelist[i].verts[k]];
            in &= hypot(p.x, p.y) <= sim.mesh.radius * (1 + 1e-9);
        }
        if (in) r.energy += ((ld)r.B[i].x * r.B[i].x + (ld)r.B[i].y * r.B[i].y) * fabsl(triArea(d, i)) / 2 / propOf(M, sim, i).mu;
    }
    return r;
}
static double biggest(const std::vector<double>& a) {
    double m = 0;
    for (double x : a) m = std::max(m, fabs(x));
    return m;
}

PROPERTY(solution, 2500, 25000, "drawings of currents, magnets and permeable bodies: the computed potential against a direct solution of the reference system, and the flux density against its curl; without sources it vanishes; non-trivial: a source and a permeable body") {
    Opts o;
    o.maxFaces = 4;
    o.minScale = 1e-2, o.maxScale = 1e2;
    MagOpts mo;
    mo.maxMu = g.coin(0.3) ? 1e4 : 100;
    mo.fieldScale = g.coin(0.1) ? 0 : 1;
    auto M = makeMag(g, o, mo, 150);
    ASSUME(M.S.clearance() > 1e-5);
    M.angle = 20 + g.draw(13);
    g.note("%s", M.show().c_str());
    MagnetostaticSimulation sim;
    auto r = run(M, sim);
    auto& d = sim.mesh.data;
    ASSUME(d.numberofpoints <= 450);
    std::vector<MagnetostaticProp> props;
    std::vector<double> mu;
    bool src = false, perm = false;
    for (int i = 0; i < d.numberoftriangles; i++) props.push_back(propOf(M, sim, i)), mu.push_back(props[i].mu);
    for (auto& p : M.prop) src |= p.J != 0 || p.M.x != 0 || p.M.y != 0, perm |= p.mu != MU0;
    g.nontrivial(src && perm);
    if (!src) {
        g.label("no source");
        for (size_t i = 0; i < r.A.size(); i++) CHECK(r.A[i] == 0, "vanishes", "the potential %zu is %g without any source", i, r.A[i]);
        return;
    }
    auto R = reference(props, mu, d);
    auto far = furthest(d);
    ASSUME(far.size() == 3);
    R.fixed = far;
    auto x = solveRef(R);
    ld m = 0;
    for (auto v : x) m = std::max(m, fabsl(v));
    ASSUME(m > 0);
    for (size_t i = 0; i < x.size(); i++) CHECK(fabsl(r.A[i] - x[i]) <= 1e-6L * m, "potential", "the potential at (%.17g,%.17g) is %.17g, should be %.17Lg (largest %Lg)", d.pointlist[i].x, d.pointlist[i].y, r.A[i], x[i], m);
    // the flux density is the curl of the potential
    for (int i = 0; i < d.numberoftriangles; i++) {
        auto& t = d.trianglelist[i].verts;
        Vector p = d.pointlist[t[0]], q = d.pointlist[t[1]], s = d.pointlist[t[2]];
        ld D = cross(p, q, s), u = x[t[1]] - x[t[0]], v = x[t[2]] - x[t[0]], L = 0;
        for (int k = 0; k < 3; k++) L = std::max(L, (ld)Vector::distance(d.pointlist[t[k]], d.pointlist[t[(k + 1) % 3]]));
        ld gx = (u * ((ld)s.y - p.y) - v * ((ld)q.y - p.y)) / D, gy = (v * ((ld)q.x - p.x) - u * ((ld)s.x - p.x)) / D;
        ld tol = 1e-5L * m * L / fabsl(D);
        CHECK(fabsl(r.B[i].x - gy) <= tol && fabsl(r.B[i].y + gx) <= tol, "flux", "the flux density of element %d is (%.17g,%.17g), should be (%.17Lg,%.17Lg)", i, r.B[i].x, r.B[i].y, gy, -gx);
    }
}

PROPERTY(superposition, 2500, 25000, "the same drawing with one set of sources, with another, and with a linear combination of both: the same mesh, and the potentials combine; non-trivial: both sets have a source") {
    Opts o;
    o.maxFaces = 4;
    o.minScale = 1e-2, o.maxScale = 1e2;
    MagOpts mo;
    mo.maxMu = 1e3;
    auto M = makeMag(g, o, mo, 400);
    ASSUME(M.S.clearance() > 1e-5);
    M.angle = 20 + g.draw(13);
    auto N = M, L = M;
    double a = g.coin(0.3) ? -1 : g.real(-3, 3), b = g.coin(0.3) ? 0 : g.real(-3, 3);
    double sz = M.S.size();
    bool s1 = false, s2 = false;
    for (size_t i = 0; i < M.prop.size(); i++) {
        auto p = magProp(g, mo, sz);
        p.mu = M.prop[i].mu;
        N.prop[i] = p;
        L.prop[i].J = a * M.prop[i].J + b * p.J;
        L.prop[i].M = M.prop[i].M * a + p.M * b;
        s1 |= M.prop[i].J != 0 || M.prop[i].M.x != 0 || M.prop[i].M.y != 0;
        s2 |= p.J != 0 || p.M.x != 0 || p.M.y != 0;
    }
    g.note("%.17g times %s\nplus %.17g times %s", a, M.show().c_str(), b, N.show().c_str());
    g.nontrivial(s1 && s2 && b != 0);
    MagnetostaticSimulation m, n, l;
    auto r = run(M, m), s = run(N, n), t = run(L, l);
    CHECK(r.A.size() == s.A.size() && s.A.size() == t.A.size(), "mesh", "%zu, %zu and %zu vertices with different sources", r.A.size(), s.A.size(), t.A.size());
    double big = fabs(a) * biggest(r.A) + fabs(b) * biggest(s.A);
    for (size_t i = 0; i < r.A.size(); i++) {
        CHECK(r.pts[i].x == t.pts[i].x && r.pts[i].y == t.pts[i].y, "mesh", "vertex %zu moves with the sources", i);
        CHECK(fabs(t.A[i] - (a * r.A[i] + b * s.A[i])) <= 2e-6 * big, "superposition", "the potential %zu is %.17g, those of the parts are %.17g and %.17g", i, t.A[i], r.A[i], s.A[i]);
    }
}

PROPERTY(motion, 1500, 15000, "the drawing moved, scaled by a power of two (with the sources scaled to match) or turned with its magnets: the same field where the mesh is the same, else the same energy within discretisation; non-trivial: at least one source") {
    Opts o;
    o.maxFaces = 3, o.maxDepth = 1;
    o.minScale = 1e-1, o.maxScale = 1e1, o.offset = 3;
    MagOpts mo;
    mo.maxMu = 100;
    auto M = makeMag(g, o, mo, 3000);
    ASSUME(M.S.clearance() > 1e-2 * M.S.size());
    M.area = M.S.size() * M.S.size() * 3 / g.logreal(1000, 4000);
    M.angle = 30;
    // the energy depends on the mesh where a body has only a few elements
    for (size_t i = 0; i < M.S.faces.size(); i++) M.area = std::min(M.area, M.S.own(i) / 40);
    ASSUME(M.area > M.S.size() * M.S.size() * 3 / 12000);
    auto N = M;
    int kind = g.draw(2);
    double s = 1, an = 0;
    Vector off(0, 0);
    if (kind == 0) off = Vector(g.real(-1, 1), g.real(-1, 1)) * (M.S.size() * g.logreal(0.1, 100)), g.label("moved");
    if (kind == 1) s = ldexp(1, (int)g.draw(12) - 6), g.label("scaled");
    if (kind == 2) an = g.coin() ? M_PI / 2 * (1 + g.draw(2)) : g.real(0, 2 * M_PI), g.label("turned");
    auto tr = [&](Vector p) { return (an ? p.rotate(an) : p) * s + off; };
    for (auto& f : N.S.faces) {
        if (f.kind == CIRCLE) f.c = tr(f.c), f.r *= s;
        if (an || f.kind == RECT || f.kind == RECTWH) f.kind = POLYGON;
        for (auto& p : f.poly) p = tr(p);
        f.seed = tr(f.seed);
    }
    N.area *= s * s;
    bool src = false;
    for (auto& p : N.prop) {
        p.J /= s;  // keeps the flux density
        if (an) p.M = p.M.rotate(an);
        src |= p.J != 0 || p.M.x != 0 || p.M.y != 0;
    }
    g.note("%s\nthen scaled by %.17g, turned by %.17g, moved by (%.17g,%.17g)", M.show().c_str(), s, an, off.x, off.y);
    g.nontrivial(src);
    MagnetostaticSimulation m, n;
    auto r = run(M, m), t = run(N, n);
    CHECK(fabsl(t.energy - r.energy * s * s) <= 0.15L * fabsl(r.energy) * s * s + 1e-30L, "energy", "the energy is %.17Lg, then %.17Lg times %g", r.energy, t.energy / (s * s), s * s);
    CHECK(fabs(n.mesh.radius - m.mesh.radius * s) <= 1e-9 * n.mesh.radius, "radius", "the radius is %.17g, then %.17g", m.mesh.radius, n.mesh.radius);
    Vector c = tr(m.mesh.center);
    CHECK(Vector::distance(c, n.mesh.center) <= 1e-9 * (n.mesh.radius + hypot(c.x, c.y)), "center", "the center is (%.17g,%.17g), should be (%.17g,%.17g)", n.mesh.center.x, n.mesh.center.y, c.x, c.y);
    bool same = !an && r.pts.size() == t.pts.size() && m.mesh.data.numberoftriangles == n.mesh.data.numberoftriangles;
    for (size_t i = 0; same && i < r.pts.size(); i++) same = Vector::distance(r.pts[i] * s, t.pts[i]) <= 1e-9 * n.mesh.radius;
    for (int i = 0; same && i < m.mesh.data.numberoftriangles; i++)
        for (int k = 0; k < 3; k++) same &= m.mesh.data.trianglelist[i].verts[k] == n.mesh.data.trianglelist[i].verts[k];
    if (same) {
        g.label("with the same mesh");
        double big = biggest(r.A) * s;
        for (size_t i = 0; i < r.A.size(); i++) CHECK(fabs(t.A[i] - r.A[i] * s) <= 1e-5 * big, "moved", "the potential %zu is %.17g, then %.17g times %g", i, r.A[i], t.A[i] / s, s);
    }
}
