// the magnetostatic system is the finite element system of currents and magnets
#include "magref.hpp"
using namespace nikfemm;
using namespace scene;

PROPERTY(system, 8000, 40000, "drawings of currents, magnets (also nested, adjacent and with holes) and permeable bodies: every entry of the generated matrix, evaluated with the permeabilities of the drawing and with random ones by element, and every source against the cotangent formula, a third of each current and the surface currents of the magnetisation edge by edge; the furthest vertices have no potential; non-trivial: a magnet and a current or two magnets") {
    Opts o;
    o.maxFaces = 5;
    o.minScale = 1e-3, o.maxScale = 1e3;
    MagOpts mo;
    mo.maxMu = 1e5;
    bool big = g.coin(0.006);
    auto M = makeMag(g, o, mo, g.coin(0.1) ? 800 : 200);
    ASSUME(M.S.clearance() > 1e-6);
    if (big) M.area = M.S.size() * M.S.size() * 3 / g.logreal(4e4, 1.2e5);
    else if (g.coin(0.15) && canRefineMagnets(M, 800)) M.refineMagnets = true;
    g.note("%s", M.show().c_str());
    int nm = 0, nj = 0;
    for (auto& p : M.prop) nm += p.M.x != 0 || p.M.y != 0, nj += p.J != 0;
    g.nontrivial(nm >= 2 || (nm && nj));
    MagnetostaticSimulation sim;
    M.draw(sim);
    auto sys = M.generate(sim);
    auto& d = sim.mesh.data;
    size_t n = d.numberofpoints;
    CHECK(sys.A.m == n && sys.b.size() == n, "size", "%u rows and %zu sources for %zu vertices", sys.A.m, sys.b.size(), n);
    std::vector<MagnetostaticProp> props;
    std::vector<double> mu, rnd;
    for (int i = 0; i < d.numberoftriangles; i++) props.push_back(propOf(M, sim, i)), mu.push_back(props[i].mu), rnd.push_back(big ? 0.5 + (i * 7 % 31) : g.coin(0.3) ? 1 : g.logreal(0.1, 10));
    if (d.numberofpoints > 65536) g.label("more than 65536 vertices");
    ld q = 1;
    for (int i = 0; i < d.numberoftriangles; i++) {
        auto& t = d.trianglelist[i].verts;
        ld l = 0;
        for (int k = 0; k < 3; k++) l = std::max(l, (ld)Vector::distance(d.pointlist[t[k]], d.pointlist[t[(k + 1) % 3]]));
        q = std::max(q, l * l / fabsl(triArea(d, i)));
    }
    for (auto* m : {&mu, &rnd}) {
        auto R = reference(props, *m, d);
        R.fixed = imposed(sys, *m);
        auto far = furthest(d);
        CHECK(R.fixed.size() == 3, "potential", "%zu vertices have no potential", R.fixed.size());
        for (uint32_t i : R.fixed) CHECK(far.count(i), "potential", "vertex %u at (%g,%g) has no potential, but is none of the furthest", i, d.pointlist[i].x, d.pointlist[i].y);
        std::map<std::pair<uint32_t, uint32_t>, double> got;
        for (auto& e : sys.A.elems) {
            uint32_t r = e.first >> 32, c = e.first & 0xffffffff;
            CHECK(r < n && c < n, "index", "entry (%u,%u) of %zu rows", r, c, n);
            NonLinearExpression x = e.second;
            CHECK(!got.count({std::min(r, c), std::max(r, c)}), "twice", "entry (%u,%u) twice", r, c);
            got[{std::min(r, c), std::max(r, c)}] = x.evaluate(*m);
        }
        for (size_t i = 0; i < n; i++)
            for (auto& [j, v] : R.K.rows[i]) {
                if (j < i) continue;
                auto f = got.find({(uint32_t)i, j});
                ld x = f == got.end() ? 0 : f->second, want = v;
                if (R.fixed.count(i) || R.fixed.count(j)) want = i == j ? 1 : 0;
                ld tol = 64 * 2.3e-16L * q * (R.K.rows[i].at(i) + R.K.rows[j].at(j));
                CHECK(fabsl(x - want) <= tol, "entry", "entry (%zu,%u) is %.17Lg, should be %.17Lg", i, j, x, want);
                if (f != got.end()) got.erase(f);
            }
        for (auto& [k, v] : got) CHECK(v == 0, "stray", "entry (%u,%u) is %.17g", k.first, k.second, v);
        for (size_t i = 0; i < n; i++) {
            NonLinearExpression e = sys.b[i];
            ld x = e.evaluate(*m), want = R.fixed.count(i) ? 0 : R.b[i];
            CHECK(fabsl(x - want) <= 1e-13L * q * R.bTol[i], "source", "the source at (%.17g,%.17g) is %.17Lg, should be %.17Lg", d.pointlist[i].x, d.pointlist[i].y, x, want);
        }
    }
    // the sources add up to the currents of the drawing
    ld tot = 0, want = 0, sz = 0;
    for (size_t i = 0; i < n; i++) {
        NonLinearExpression e = sys.b[i];
        tot += e.evaluate(mu), sz += fabsl(e.evaluate(mu));
    }
    for (size_t i = 0; i < M.prop.size(); i++) want += (ld)M.prop[i].J * M.S.own(i), sz += fabsl(M.prop[i].J) * M.S.faces[i].area;
    CHECK(fabsl(tot - want) <= 1e-9L * sz * q, "total", "the sources add up to %.17Lg, the currents to %.17Lg", tot, want);
}
