// layers joined by resistances
#include "layers.hpp"
using namespace nikfemm;
using namespace scene;

static ld worstShape(MultiLayerCurrentDensitySimulation& sim) {
    ld q = 1;
    for (auto& m : sim.meshes) {
        auto& d = m.data;
        for (int i = 0; i < d.numberoftriangles; i++) {
            auto& t = d.trianglelist[i].verts;
            ld e = 0;
            for (int k = 0; k < 3; k++) e = std::max(e, (ld)Vector::distance(d.pointlist[t[k]], d.pointlist[t[(k + 1) % 3]]));
            q = std::max(q, e * e / fabsl(triArea(d, i)));
        }
    }
    return q;
}

PROPERTY(system, 8000, 80000, "layers with resistances between points anywhere in them (corners, inner points, the same place several times, within a layer, upwards): the generated matrix is the reference stiffness of the layers plus the stamps of the resistors at the nearest vertices, and the ends of the resistances are vertices; non-trivial: at least one resistance between two vertices") {
    auto s = makeStack(g, 80, 1e-3, 1e6);
    for (auto& c : s.ic)
        if (g.coin(0.3)) c.R = g.logreal(1e-9, 1e9);
    if (g.coin(0.002)) {
        double tot = 0;
        for (auto& l : s.L) tot += l.S.total();
        s.P.area = tot / g.logreal(3e4, 1.2e5);
    }
    g.note("%s", s.show().c_str());
    auto sim = s.make();
    s.draw(sim);
    auto sys = sim.generateSystem(s.P.refine, s.P.area, s.P.angle);
    auto o = s.offsets(sim);
    if (o.back() > 65536) g.label("more than 65536 vertices");
    for (auto& c : s.ic)
        for (auto& [l, p] : {std::pair<uint64_t, Vector>{c.layer1_id, c.p1}, {c.layer2_id, c.p2}}) {
            auto& d = sim.meshes[l].data;
            bool tie;
            int v = nearest(d, p, tie);
            CHECK(Vector::distance(d.pointlist[v], p) <= 1e-9, "vertex", "no vertex at the end (%.17g,%.17g) of an interconnection in layer %zu", p.x, p.y, (size_t)l);
        }
    ref::Sparse K(o.back());
    std::vector<std::pair<size_t, size_t>> ends;
    ASSUME(s.reference(sim, K, &ends));
    bool any = false;
    for (auto& [a, b] : ends) any |= a != b;
    g.nontrivial(any);
    checkMatrix(sys, K, 64 * 2.3e-16L * worstShape(sim));
}

PROPERTY(solution, 12000, 100000, "the same with voltages imposed at places in the layers: voltages against a direct solution of the reference; a layer that nothing joins to the others gets what it gets alone; non-trivial: a current flows through a resistance") {
    auto s = makeStack(g, 50);
    g.note("%s", s.show().c_str());
    auto sim = s.make();
    s.draw(sim);
    auto sys = sim.generateSystem(s.P.refine, s.P.area, s.P.angle);
    auto o = s.offsets(sim);
    ASSUME(o.back() <= 350);
    ref::Sparse K(o.back());
    std::vector<std::pair<size_t, size_t>> ends;
    ASSUME(s.reference(sim, K, &ends));
    std::map<uint32_t, double> fixed;
    struct Put { Vector p; double v; size_t l; };
    std::vector<Put> puts;
    double vs = g.coin() ? 1 : g.logreal(0.1, 100);
    int ne = 2 + g.size(0, 5);
    for (int e = 0; e < ne; e++) {
        size_t l = g.draw(s.L.size() - 1);
        auto& d = sim.meshes[l].data;
        Vector p = g.coin() ? d.pointlist[g.draw(d.numberofpoints - 1)] : contactPoint(g, s.L[l]);
        bool tie;
        int n = nearest(d, p, tie);
        if (tie || fixed.count(o[l] + n)) continue;
        double v = (g.coin(0.3) ? g.draw(2) : g.real(-1, 1)) * vs;
        fixed[o[l] + n] = v;
        puts.push_back({p, v, l});
        g.note("voltage %.17g in layer %zu at (%.17g,%.17g)", v, l, p.x, p.y);
        sim.setVoltage(sys, p, v, l);
    }
    ASSUME(!fixed.empty());
    auto V = sim.solve(sys);
    CHECK(V.size() == o.back(), "size", "%zu voltages for %zu vertices", V.size(), o.back());
    auto R = solveFixed(K, fixed);
    double m = 0;
    for (auto& [i, v] : fixed) m = std::max(m, fabs(v));
    for (size_t i = 0; i < V.size(); i++) {
        CHECK(std::isfinite(V[i]), "nonfinite", "voltage %zu is %g", i, V[i]);
        if (std::isnan((double)R[i])) continue;
        CHECK(fabsl(V[i] - R[i]) <= 1e-4L * m + 1e-5L, "voltage", "the voltage of vertex %zu is %.17g, should be %.17Lg", i, V[i], R[i]);
    }
    bool flows = false;
    for (auto& [a, b] : ends) flows |= a != b && fabsl(R[a] - R[b]) > 1e-3L * m;
    g.nontrivial(flows);
    // layers on their own
    for (size_t l = 0; l < s.L.size(); l++) {
        bool alone = true, volt = false;
        for (auto& c : s.ic) alone &= c.layer1_id != l && c.layer2_id != l;
        for (auto& p : puts) volt |= p.l == l;
        if (!alone || !volt) continue;
        g.label("unconnected layer");
        CurrentDensitySimulation one(s.L[l].depth);
        s.L[l].draw(one.mesh);
        auto s1 = one.generateSystem(s.P.refine, s.P.area, s.P.angle);
        CHECK(one.mesh.data.numberofpoints == sim.meshes[l].data.numberofpoints && one.mesh.data.numberoftriangles == sim.meshes[l].data.numberoftriangles, "alone", "%d vertices in the stack and %d alone", sim.meshes[l].data.numberofpoints, one.mesh.data.numberofpoints);
        for (auto& p : puts)
            if (p.l == l) one.setVoltage(s1, p.p, p.v);
        auto V1 = one.solve(s1);
        for (size_t i = 0; i < V1.size(); i++)
            if (!std::isnan((double)R[o[l] + i])) CHECK(fabs(V1[i] - V[o[l] + i]) <= 1e-4 * m + 1e-5, "alone", "vertex %zu has %.17g in the stack and %.17g alone", i, V[o[l] + i], V1[i]);
    }
}

PROPERTY(circuit, 6000, 60000, "strips on two layers in series through resistances at one place, contacts over their ends: the current lies between that of the strips with and without the neighbourhood of the contact, and equals the voltage over the resistances times their parallel conductance; non-trivial: two resistances and more") {
    // both strips are fixed at one end only, so the current through them is the one through the resistors
    int n = 1 + g.size(0, 4);
    double sg = g.logreal(1, 100), dep = g.logreal(1, 5), V0 = g.real(0.5, 20) * (g.coin() ? 1 : -1);
    std::vector<double> R(n);
    double G = 0;
    MultiLayerCurrentDensitySimulation sim(2, {dep, dep});
    for (int l = 0; l < 2; l++) {
        sim.meshes[l].drawing.drawRectangle(Vector(0, 0), Vector(4, 1));
        sim.meshes[l].drawing.drawRegion({2, 0.5}, {sg});
    }
    bool up = g.coin();
    Vector p = g.coin() ? Vector(3, g.real(0.2, 0.8)) : Vector(4, 1);
    for (auto& r : R) {
        r = g.logreal(1e-2, 1e1);
        G += 1 / r;
        if (g.coin()) sim.interconnections.push_back({p, p, 0, 1, r});
        else sim.interconnections.push_back({p, p, 1, 0, r});
    }
    double area = 4 / g.logreal(8, 150);
    g.note("sigma %.17g depth %.17g voltage %.17g at (%.17g,%.17g) area %.17g, %d resistances, together %.17g", sg, dep, V0, p.x, p.y, area, n, 1 / G);
    g.nontrivial(n > 1);
    auto sys = sim.generateSystem(g.coin(), area, 33);
    size_t off = sim.meshes[0].data.numberofpoints;
    for (int l = 0; l < 2; l++)
        for (int i = 0; i < sim.meshes[l].data.numberofpoints; i++) {
            Vector q = sim.meshes[l].data.pointlist[i];
            if (q.x < 1e-12) sim.setVoltage(sys, q, (l == 0) == up ? V0 : 0, l);
        }
    auto V = sim.solve(sys);
    bool tie;
    int a = nearest(sim.meshes[0].data, p, tie), b = nearest(sim.meshes[1].data, p, tie);
    double I = (V[a] - V[off + b]) * G;
    auto pd = sim.computePowerDensity(V);
    size_t t = 0;
    double strips = 0;
    for (auto& m : sim.meshes)
        for (int i = 0; i < m.data.numberoftriangles; i++) strips += pd[t++] * fabsl(triArea(m.data, i)) * dep;
    double res = (V[a] - V[off + b]) * (V[a] - V[off + b]) * G, total = (up ? V0 : -V0) * I;
    CHECK(fabs(strips + res - total) <= 1e-3 * fabs(V0 * I) + 1e-3 * V0 * V0 * 1e-3, "balance", "%.17g in the strips and %.17g in the resistances, %.17g is delivered", strips, res, total);
    // two strips of three squares at least up to the contact point when it is at 3, with the current spread evenly
    double Rmin = 1 / G + 2 * 2.5 / (sg * dep);
    CHECK(fabs(I) <= fabs(V0) / Rmin * (1 + 1e-3), "current", "the current %.17g is more than %.17g through the strips' %.17g", I, V0 / Rmin, Rmin);
    CHECK(I * (up ? V0 : -V0) > 0, "direction", "the current is %.17g at %.17g volts", I, V0);
}
