// power density and energy balance
#include "layers.hpp"
using namespace nikfemm;
using namespace scene;

static ld fieldSq(const MeshData& d, const double* V, int i) {
    auto& t = d.trianglelist[i].verts;
    Vector p = d.pointlist[t[0]], q = d.pointlist[t[1]], r = d.pointlist[t[2]];
    ld D = cross(p, q, r), u = (ld)V[t[1]] - V[t[0]], v = (ld)V[t[2]] - V[t[0]];
    ld gx = (u * ((ld)r.y - p.y) - v * ((ld)q.y - p.y)) / D, gy = (v * ((ld)q.x - p.x) - u * ((ld)r.x - p.x)) / D;
    return gx * gx + gy * gy;
}

PROPERTY(density, 20000, 100000, "random nodal voltages on the layers of a stack: the power density of every element of every layer is its conductivity times the square of the voltage's gradient, by layer and element in order; non-trivial: two layers and more, with different numbers of vertices") {
    auto s = makeStack(g, 60, 1e-4, 1e8);
    g.note("%s", s.show().c_str());
    auto sim = s.make();
    s.draw(sim);
    auto sys = sim.generateSystem(s.P.refine, s.P.area, s.P.angle);
    auto o = s.offsets(sim);
    std::vector<double> V(o.back());
    int kind = g.draw(2);
    for (auto& v : V) v = kind == 0 ? g.real(-1, 1) : kind == 1 ? g.real(-1, 1) * g.logreal(1e-3, 1e3) : 5;
    auto V0 = V;
    auto pd = sim.computePowerDensity(V);
    CHECK(V == V0, "input", "the voltages were changed");
    size_t nt = 0;
    bool diff = false;
    for (auto& m : sim.meshes) nt += m.data.numberoftriangles, diff |= m.data.numberofpoints != sim.meshes[0].data.numberofpoints;
    CHECK(pd.size() == nt, "size", "%zu values for %zu elements", pd.size(), nt);
    g.nontrivial(diff && kind != 2);
    size_t k = 0;
    for (size_t l = 0; l < sim.meshes.size(); l++) {
        auto& d = sim.meshes[l].data;
        for (int i = 0; i < d.numberoftriangles; i++, k++) {
            ld sg = sigmaOf(s.L[l], sim.meshes[l], i), want = sg * fieldSq(d, &V[o[l]], i);
            auto& t = d.trianglelist[i].verts;
            ld L = 0, A = fabsl(triArea(d, i)) * 2, m = 0;
            for (int j = 0; j < 3; j++) L = std::max(L, (ld)Vector::distance(d.pointlist[t[j]], d.pointlist[t[(j + 1) % 3]])), m = std::max(m, fabsl(V[o[l] + t[j]]));
            ld ge = (L / A) * (1 + L * L / A) * m;  // the error of the gradient in units of rounding
            ld tol = sg * (sqrtl(want / sg) * ge * 128 * 2.3e-16L + ge * ge * 1e-29L) + want * 1e-14L;
            CHECK(fabsl(pd[k] - want) <= tol, "density", "element %d of layer %zu has the power density %.17g, should be %.17Lg", i, l, pd[k], want);
        }
    }
}

PROPERTY(balance, 24000, 100000, "solved stacks with voltages on single vertices or groups of them: the power in the layers and in the resistances adds up to the power delivered by the imposed voltages, and the imposed currents of each joined group of layers add up to zero; non-trivial: power in a resistance and in two layers") {
    auto s = makeStack(g, 60, 1, 1e2);
    g.note("%s", s.show().c_str());
    auto sim = s.make();
    s.draw(sim);
    auto sys = sim.generateSystem(s.P.refine, s.P.area, s.P.angle);
    auto o = s.offsets(sim);
    ASSUME(o.back() <= 900);
    ref::Sparse K(o.back());
    std::vector<std::pair<size_t, size_t>> ends;
    ASSUME(s.reference(sim, K, &ends));
    auto comp = components(K);
    std::map<uint32_t, double> fixed;
    double vs = g.logreal(1, 100);
    int ne = 2 + g.size(0, 4);
    for (int e = 0; e < ne; e++) {
        size_t l = g.draw(s.L.size() - 1);
        auto& d = sim.meshes[l].data;
        double v = g.real(-1, 1) * vs;
        // one vertex, or all on an outline
        auto& F = s.L[l].S.faces[g.draw(s.L[l].S.faces.size() - 1)];
        if (g.coin()) {
            uint32_t n = g.draw(d.numberofpoints - 1);
            if (!fixed.count(o[l] + n)) fixed[o[l] + n] = v, sim.setVoltage(sys, d.pointlist[n], v, l);
        } else {
            int k = g.draw(F.poly.size() - 1);
            for (int i = 0; i < d.numberofpoints; i++)
                if (segDist(d.pointlist[i], F.poly[k], F.poly[(k + 1) % F.poly.size()]) < 1e-9 * s.L[l].S.size() && !fixed.count(o[l] + i)) fixed[o[l] + i] = v, sim.setVoltage(sys, d.pointlist[i], v, l);
        }
    }
    g.note("%zu imposed vertices", fixed.size());
    auto V = sim.solve(sys);
    std::set<int> live;
    for (auto& [i, v] : fixed) live.insert(comp[i]);
    for (size_t i = 0; i < V.size(); i++)
        if (!live.count(comp[i])) V[i] = 0;
    auto I = K.mul(ref::toL(V));
    auto pd = sim.computePowerDensity(V);
    size_t k = 0;
    ld layers = 0, res = 0, in = 0, cur = 0;
    int busy = 0;
    for (size_t l = 0; l < sim.meshes.size(); l++) {
        auto& d = sim.meshes[l].data;
        ld p = 0;
        for (int i = 0; i < d.numberoftriangles; i++, k++) {
            CHECK(pd[k] >= 0, "sign", "element %d of layer %zu has the power density %.17g", i, l, pd[k]);
            p += (ld)pd[k] * fabsl(triArea(d, i)) * s.L[l].depth;
        }
        layers += p;
        busy += p > 1e-6 * vs * vs;
    }
    for (size_t i = 0; i < ends.size(); i++) {
        ld u = (ld)V[ends[i].first] - V[ends[i].second];
        if (ends[i].first != ends[i].second) res += u * u / s.ic[i].R;
    }
    std::map<int, ld> sum;
    for (auto& [i, v] : fixed) in += I[i] * v, sum[comp[i]] += I[i], cur += fabsl(I[i]);
    g.nontrivial(busy >= 2 && res > 1e-6 * vs * vs);
    // the solver leaves an absolute residual of about 1e-7 in every equation
    ld slack = 1e-5L * vs * sqrtl(V.size());
    CHECK(fabsl(layers + res - in) <= 1e-6L * in + slack, "balance", "%.17Lg in the layers and %.17Lg in the resistances, %.17Lg is delivered", layers, res, in);
    for (auto& [c, x] : sum) CHECK(fabsl(x) <= 1e-6L * cur + slack / vs, "kirchhoff", "%.17Lg of the current %.17Lg is lost", x, cur);
}
