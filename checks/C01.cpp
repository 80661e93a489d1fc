// the system of a conductor is the finite element system of its mesh
#include "conduction.hpp"
using namespace nikfemm;
using namespace scene;

PROPERTY(single, 8000, 40000, "a conductor of one layer (conductivities over 12 decades, any thickness): every entry of the generated matrix against the cotangent formula with the conductivity of the face of the drawing the element lies in; energy of random voltages; non-trivial: at least 10 triangles") {
    Opts o;
    o.maxFaces = 6;
    o.minScale = 1e-4, o.maxScale = 1e4;
    CondOpts c;
    c.minSigma = 1e-4, c.maxSigma = 1e8, c.minDepth = 1e-5, c.maxDepth = 10;
    auto L = makeLayer(g, o, c);
    ASSUME(L.S.clearance() > 1e-7);
    auto P = condParams(g, L.S.total(), 300);
    bool big = g.coin(0.004);
    if (big) P.area = L.S.total() / g.logreal(3e4, 1.2e5);
    g.note("area %.17g angle %d refine %d %s", P.area, P.angle, P.refine, L.show().c_str());
    bool def = L.depth == 1 && g.coin();
    CurrentDensitySimulation s1(L.depth), s2;
    auto& sim = def ? s2 : s1;
    if (def) sim.mesh.depth = 1;
    L.draw(sim.mesh);
    auto sys = sim.generateSystem(P.refine, P.area, P.angle);
    auto& d = sim.mesh.data;
    g.nontrivial(d.numberoftriangles >= 10);
    ref::Sparse K(d.numberofpoints);
    addStiffness(K, 0, sim.mesh, L);
    ld q = 0;
    for (int i = 0; i < d.numberoftriangles; i++) {
        auto& t = d.trianglelist[i].verts;
        ld l = 0;
        for (int k = 0; k < 3; k++) l = std::max(l, (ld)Vector::distance(d.pointlist[t[k]], d.pointlist[t[(k + 1) % 3]]));
        q = std::max(q, l * l / fabsl(triArea(d, i)));
    }
    ld mag = 0;
    for (int i = 0; i < d.numberofpoints; i++) mag = std::max({mag, (ld)fabs(d.pointlist[i].x), (ld)fabs(d.pointlist[i].y)});
    // cancellation in the coordinates' differences times the worst aspect ratio
    checkMatrix(sys, K, 64 * 2.3e-16L * (1 + q));
    // energy of a random field by its gradients
    std::vector<double> v(d.numberofpoints);
    uint64_t seed = big ? g.draw(UINT64_MAX) : 0;
    for (auto& x : v) x = big ? (double)(pbt::mix(++seed) >> 11) / 9007199254740992.0 * 2 - 1 : g.real(-1, 1);
    if (d.numberofpoints > 65536) g.label("more than 65536 vertices");
    auto grad = sim.mesh.computeGrad(v);
    ld e = 0, w = 0;
    for (int i = 0; i < d.numberoftriangles; i++) e += (ld)sigmaOf(L, sim.mesh, i) * L.depth * fabsl(triArea(d, i)) * ((ld)grad[i].x * grad[i].x + (ld)grad[i].y * grad[i].y);
    MatCSRSymmetric A(sys.A);
    std::vector<double> y(v.size());
    mult(y, A, v);
    for (int i = 0; i < d.numberofpoints; i++) w += (ld)v[i] * y[i];
    CHECK(fabsl(e - w) <= 1e-9L * (1 + q) * e, "energy", "the fields' energy is %.17Lg, the matrix gives %.17Lg", e, w);
    // a constant is in the kernel
    std::vector<double> one(d.numberofpoints, 1.0);
    std::vector<double> z(v.size());
    mult(z, A, one);
    for (int i = 0; i < d.numberofpoints; i++) CHECK(fabs(z[i]) <= 1e-9 * (double)(1 + q) * (double)K.rows[i][i], "kernel", "row %d sums to %.17g", i, z[i]);
}

PROPERTY(layers, 3000, 15000, "several layers without connections: the generated matrix is the blocks of the layers one after the other; non-trivial: two layers and more") {
    int n = 1 + g.draw(3);
    std::vector<Layer> L;
    std::vector<double> depths;
    double tot = 0;
    CondOpts c;
    c.minSigma = 1e-4, c.maxSigma = 1e8, c.minDepth = 1e-5, c.maxDepth = 10;
    Opts o;
    o.maxFaces = 3;
    o.minScale = 0.1, o.maxScale = 10;
    for (int i = 0; i < n; i++) {
        L.push_back(makeLayer(g, o, c));
        ASSUME(L[i].S.clearance() > 1e-7);
        depths.push_back(L[i].depth);
        tot = std::max(tot, L[i].S.total());
        g.note("layer %d %s", i, L[i].show().c_str());
    }
    auto P = condParams(g, tot, 150);
    g.note("area %.17g angle %d refine %d", P.area, P.angle, P.refine);
    MultiLayerCurrentDensitySimulation sim(n, depths);
    for (int i = 0; i < n; i++) L[i].draw(sim.meshes[i]);
    auto sys = sim.generateSystem(P.refine, P.area, P.angle);
    g.nontrivial(n > 1);
    size_t tn = 0;
    for (auto& m : sim.meshes) tn += m.data.numberofpoints;
    ref::Sparse K(tn);
    size_t off = 0;
    ld q = 0;
    for (int l = 0; l < n; l++) {
        auto& d = sim.meshes[l].data;
        addStiffness(K, off, sim.meshes[l], L[l]);
        off += d.numberofpoints;
        for (int i = 0; i < d.numberoftriangles; i++) {
            auto& t = d.trianglelist[i].verts;
            ld e = 0;
            for (int k = 0; k < 3; k++) e = std::max(e, (ld)Vector::distance(d.pointlist[t[k]], d.pointlist[t[(k + 1) % 3]]));
            q = std::max(q, e * e / fabsl(triArea(d, i)));
        }
    }
    checkMatrix(sys, K, 64 * 2.3e-16L * (1 + q));
}
