// computed voltages obey the physics of conduction
#include "conduction.hpp"
using namespace nikfemm;
using namespace scene;

static double range(const std::map<uint32_t, double>& f, double& lo, double& hi) {
    lo = INFINITY, hi = -INFINITY;
    double m = 0;
    for (auto& [i, v] : f) lo = std::min(lo, v), hi = std::max(hi, v), m = std::max(m, fabs(v));
    return m;
}

PROPERTY(solution, 16000, 150000, "a conductor with voltages at random places: the computed voltages against a direct solution of the reference stiffness; imposed values hold, no net current at free vertices, values between the imposed ones where the matrix is of the kind that guarantees it; two solutions superpose and scale; non-trivial: two different imposed values in one piece and at least 10 free vertices") {
    Opts o;
    o.maxFaces = 5;
    o.minScale = 1e-3, o.maxScale = 1e3;
    auto L = makeLayer(g, o);
    ASSUME(L.S.clearance() > 1e-6);
    auto P = condParams(g, L.S.total(), g.coin(0.1) ? 300 : 100);
    g.note("area %.17g angle %d refine %d %s", P.area, P.angle, P.refine, L.show().c_str());
    CurrentDensitySimulation sim(L.depth);
    L.draw(sim.mesh);
    auto sys = sim.generateSystem(P.refine, P.area, P.angle);
    auto& d = sim.mesh.data;
    ASSUME(d.numberofpoints <= 250);
    ref::Sparse K(d.numberofpoints);
    addStiffness(K, 0, sim.mesh, L);
    auto comp = components(K);
    // electrodes at vertices or anywhere
    std::map<uint32_t, double> fixed, fixed2;
    double vs = g.coin(0.5) ? 1 : g.logreal(1e-2, 1e3);
    System<double> sys1(sys), sys2(sys), sys3(sys);
    double al = g.real(-2, 2), be = g.real(-2, 2);
    auto put = [&](Vector p) {
        bool tie;
        int n = nearest(d, p, tie);
        if (tie || fixed.count(n)) return;
        double v = (g.coin(0.3) ? g.draw(2) : g.real(-1, 1)) * vs, w = g.real(-1, 1) * vs;
        fixed[n] = v, fixed2[n] = w;
        g.note("voltage %.17g at (%.17g,%.17g)", v, p.x, p.y);
        sim.setVoltage(sys1, p, v);
        sim.setVoltage(sys2, p, w);
        sim.setVoltage(sys3, p, al * v + be * w);
    };
    int ne = 1 + g.size(0, 6);
    for (int e = 0; e < ne; e++) {
        int t = g.draw(d.numberoftriangles - 1);
        if (g.coin(0.6)) put(d.pointlist[g.draw(d.numberofpoints - 1)]);
        else put(centroid(d, t) + (d.pointlist[d.trianglelist[t].verts[0]] - centroid(d, t)) * g.real(0.05, 0.5));
    }
    // every piece needs one
    std::set<int> have;
    for (auto& [i, v] : fixed) have.insert(comp[i]);
    for (int i = 0; i < d.numberofpoints; i++)
        if (have.insert(comp[i]).second && g.coin(0.8)) put(d.pointlist[i]);
    ASSUME(!fixed.empty());
    have.clear();
    std::map<int, std::set<double>> vals;
    for (auto& [i, v] : fixed) have.insert(comp[i]), vals[comp[i]].insert(v);
    bool drop = false;
    for (auto& [c, s] : vals) drop |= s.size() > 1;
    g.nontrivial(drop && d.numberofpoints - fixed.size() >= 10);
    double lo, hi, m = range(fixed, lo, hi);
    auto V = sim.solve(sys1);
    CHECK(V.size() == (size_t)d.numberofpoints, "size", "%zu voltages for %d vertices", V.size(), d.numberofpoints);
    auto R = solveFixed(K, fixed);
    for (int i = 0; i < d.numberofpoints; i++) {
        CHECK(std::isfinite(V[i]), "nonfinite", "voltage %d is %g", i, V[i]);
        if (std::isnan((double)R[i])) continue;  // nothing fixes this piece
        CHECK(fabsl(V[i] - R[i]) <= 1e-7L * m + 1e-10L, "voltage", "the voltage of vertex %d (%.17g,%.17g) is %.17g, should be %.17Lg", i, d.pointlist[i].x, d.pointlist[i].y, V[i], R[i]);
    }
    for (auto& [i, v] : fixed) CHECK(fabs(V[i] - v) <= 1e-9 * m + 1e-11, "imposed", "the voltage of vertex %u is %.17g, imposed %.17g", i, V[i], v);
    // no current accumulates
    auto I = K.mul(ref::toL(V));
    for (int i = 0; i < d.numberofpoints; i++) {
        if (fixed.count(i) || !have.count(comp[i])) continue;
        CHECK(fabsl(I[i]) <= 1e-9L * (K.rows[i][i] * m + 1), "current", "a current of %.17Lg leaves vertex %d", I[i], i);
    }
    // maximum principle, by piece
    bool mm = true;
    for (int i = 0; i < d.numberofpoints; i++)
        for (auto& [j, v] : K.rows[i]) mm &= (int)j == i || v <= 1e-12L * K.rows[i][i];
    if (mm) {
        g.label("maximum principle");
        for (int i = 0; i < d.numberofpoints; i++)
            if (have.count(comp[i])) {
                double a = *vals[comp[i]].begin(), b = *vals[comp[i]].rbegin(), t = 1e-8 * m + 1e-10;
                CHECK(V[i] >= a - t && V[i] <= b + t, "range", "the voltage of vertex %d is %.17g, imposed are %.17g to %.17g", i, V[i], a, b);
            }
    }
    auto W = sim.solve(sys2), X = sim.solve(sys3);
    for (int i = 0; i < d.numberofpoints; i++) {
        if (!have.count(comp[i])) continue;
        CHECK(fabs(X[i] - (al * V[i] + be * W[i])) <= 1e-6 * vs, "superposition", "%.17g for %.17g times the first plus %.17g times the second, which are %.17g and %.17g", X[i], al, be, V[i], W[i]);
    }
}

// strips along x of length len: cells of given lengths or heights, turned and moved
PROPERTY_H(strips, 10000, 100000, "a rectangle of materials in series, in parallel or alone (with shapes of the same material inside), at any place and angle, voltages on all vertices of both ends: voltages vary linearly as the resistances demand and the current is exact; non-trivial: at least 10 free vertices", 200) {
    double len = 1, hei = g.logreal(0.2, 3), sc = g.coin(0.3) ? 1 : g.logreal(1e-3, 1e3), an = g.coin(0.5) ? g.real(0, 2 * M_PI) : 0;
    Vector off = g.coin(0.4) ? Vector(0, 0) : Vector(g.real(-1, 1), g.real(-1, 1)) * (5 * sc);
    int kind = g.draw(2), n = kind == 2 ? 1 : 1 + g.draw(3);  // series, parallel, with things inside
    std::vector<double> cut(n + 1), sig;
    for (int i = 1; i <= n; i++) cut[i] = cut[i - 1] + g.real(0.3, 1);
    for (int i = 1; i <= n; i++) cut[i] = i == n ? 1 : cut[i] / cut[n];
    for (int i = 0; i < n; i++) sig.push_back(g.logreal(1, 1e3));
    double depth = g.coin(0.3) ? 1 : g.logreal(1, 10);
    std::vector<double> given = sig;
    if (g.coin(0.1)) {
        // the built-in copper, 16.78 nanoohm metres
        for (auto& s : sig) s = 1 / 16.78e-9;
        given.assign(n, current_density_materials::copper);
        depth = g.coin(0.3) ? 1 : g.logreal(1e-6, 1e-3);
        g.label("copper");
    } else if (g.coin(0.3)) {
        // metal sheets: large conductivity, any thickness
        double k = g.logreal(1e3, 1e5);
        for (auto& s : sig) s *= k;
        depth = g.coin(0.3) ? 1 : g.logreal(1, 1e3) / k;
        given = sig;
        g.label("metal sheet");
    }
    auto tr = [&](double x, double y) {
        Vector v(x * len, y * hei);
        return (an ? v.rotate(an) : v) * sc + off;
    };
    CurrentDensitySimulation sim(depth);
    std::vector<int> order(n);
    std::iota(order.begin(), order.end(), 0);
    g.shuffle(order);
    std::string desc;
    for (int i : order) {
        double x0 = kind == 1 ? 0 : cut[i], x1 = kind == 1 ? 1 : cut[i + 1], y0 = kind == 1 ? cut[i] : 0, y1 = kind == 1 ? cut[i + 1] : 1;
        std::vector<Vector> q{tr(x0, y0), tr(x1, y0), tr(x1, y1), tr(x0, y1)};
        if (g.coin(0.3)) std::reverse(q.begin(), q.end());
        sim.mesh.drawing.drawPolygon(q);
        sim.mesh.drawing.drawRegion(tr(x0 + (x1 - x0) * g.real(0.05, 0.15), (y0 + y1) / 2), {given[i]});
        desc += pbt::fmt("\n  part %g..%g sigma %.17g", kind == 1 ? y0 : x0, kind == 1 ? y1 : x1, sig[i]);
    }
    if (kind == 2) {
        // inside shapes of the same material, in the middle
        int m = 1 + g.draw(1);
        for (int k = 0; k < m; k++) {
            double cx = 0.35 + 0.35 * k, cy = g.real(0.4, 0.6), r = g.real(0.05, 0.15);
            int t = 3 + g.draw(5);
            std::vector<Vector> q;
            for (int i = 0; i < t; i++) q.push_back(tr(cx + r * cos(2 * M_PI * i / t + 0.1), cy + r * sin(2 * M_PI * i / t + 0.1)));
            sim.mesh.drawing.drawPolygon(q);
            sim.mesh.drawing.drawRegion(tr(cx, cy), {given[0]});
        }
        g.label("same material inside");
    } else g.label(n == 1 ? "single" : kind ? "parallel" : "series");
    double area = sc * sc * hei / g.logreal(4, 400);
    int angle = g.coin(0.4) ? 33 : 5 + g.draw(28);
    bool refine = g.coin(0.2);
    if (g.coin(0.001)) area = sc * sc * hei / g.logreal(2e4, 8e4), refine = false, g.label("large mesh");
    g.note("height %.17g scale %.17g angle %.17g offset (%.17g,%.17g) depth %.17g area %.17g min angle %d refine %d%s", hei, sc, an, off.x, off.y, depth, area, angle, refine, desc.c_str());
    auto sys = sim.generateSystem(refine, area, angle);
    auto& d = sim.mesh.data;
    Vector e = tr(1, 0) - tr(0, 0), o = tr(0, 0);
    double l2 = e.x * e.x + e.y * e.y, va = g.real(-1, 1), vb = va + (g.coin() ? 1 : g.real(-10, 10));
    auto along = [&](Vector p) { return ((p.x - o.x) * e.x + (p.y - o.y) * e.y) / l2; };
    std::vector<int> A, B;
    for (int i = 0; i < d.numberofpoints; i++) {
        double x = along(d.pointlist[i]);
        if (x < 1e-8) A.push_back(i), sim.setVoltage(sys, d.pointlist[i], va);
        else if (x > 1 - 1e-8) B.push_back(i), sim.setVoltage(sys, d.pointlist[i], vb);
    }
    CHECK(A.size() >= 2 && B.size() >= 2, "ends", "%zu and %zu vertices at the ends", A.size(), B.size());
    g.nontrivial(d.numberofpoints - A.size() - B.size() >= 10);
    auto V = sim.solve(sys);
    double tot = 0, G = 0;
    for (int i = 0; i < n; i++) tot += (cut[i + 1] - cut[i]) / sig[i], G += (cut[i + 1] - cut[i]) * sig[i];
    for (int i = 0; i < d.numberofpoints; i++) {
        double x = along(d.pointlist[i]), f = x;
        if (kind == 0) {
            f = 0;
            for (int k = 0; k < n; k++) f += std::max(0., std::min(x, cut[k + 1]) - cut[k]) / sig[k] / tot;
        }
        double want = va + (vb - va) * f;
        CHECK(fabs(V[i] - want) <= 1e-7 * (fabs(va) + fabs(vb)), "linear", "the voltage at %.17g of the length is %.17g, should be %.17g", x, V[i], want);
    }
    // current through the end: by the flux over the elements
    auto gr = sim.mesh.computeGrad(V);
    ld power = 0;
    for (int i = 0; i < d.numberoftriangles; i++) power += sim.mesh.drawing.getRegionPtrFromId(d.triangleattributelist[i])->sigma * fabsl(triArea(d, i)) * depth * ((ld)gr[i].x * gr[i].x + (ld)gr[i].y * gr[i].y);
    ld cond = (kind == 1 ? G : 1 / tot) * depth * hei / len;
    CHECK(fabsl(power - cond * (vb - va) * (vb - va)) <= 1e-6L * cond * (va * va + vb * vb), "power", "the power is %.17Lg, should be %.17Lg", power, cond * (vb - va) * (vb - va));
}
