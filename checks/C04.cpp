// a voltage is imposed on the vertex nearest to the point, in its layer, and nowhere else
#include "layers.hpp"
using namespace nikfemm;
using namespace scene;

typedef std::map<std::pair<uint32_t, uint32_t>, ld> Entries;
static Entries entries(const System<double>& s) {
    Entries e;
    for (auto& x : s.A.elems) {
        uint32_t r = x.first >> 32, c = x.first & 0xffffffff;
        e[{std::min(r, c), std::max(r, c)}] += x.second;
    }
    return e;
}
// what imposing a value does to the equations
static void impose(Entries& A, std::vector<ld>& b, std::vector<ld>& tol, uint32_t id, double v) {
    for (auto& [k, x] : A) {
        if (k.first == k.second) continue;
        if (k.first == id) b[k.second] -= x * v, tol[k.second] += fabsl(x * v), x = 0;
        else if (k.second == id) b[k.first] -= x * v, tol[k.first] += fabsl(x * v), x = 0;
    }
    A[{id, id}] = 1;
    b[id] = v;
}
static void compare(const System<double>& sys, const Entries& A, const std::vector<ld>& b, const std::vector<ld>& tol, const char* when) {
    auto got = entries(sys);
    for (auto& [k, v] : A) {
        auto f = got.find(k);
        ld x = f == got.end() ? 0 : f->second;
        CHECK(x == v, "matrix", "%s the entry (%u,%u) is %.17Lg, should be %.17Lg", when, k.first, k.second, x, v);
    }
    for (auto& [k, v] : got) CHECK(v == 0 || A.count(k), "matrix", "%s there is an entry (%u,%u) of %.17Lg", when, k.first, k.second, v);
    CHECK(sys.b.size() == b.size(), "size", "%s the right-hand side has %zu entries", when, sys.b.size());
    for (size_t i = 0; i < b.size(); i++) CHECK(fabsl(sys.b[i] - b[i]) <= 1e-14L * tol[i], "rhs", "%s the right-hand side %zu is %.17g, should be %.17Lg", when, i, sys.b[i], b[i]);
}
static Vector anyPoint(pbt::Gen& g, const MeshData& d, double size) {
    int t = g.draw(d.numberoftriangles - 1);
    switch (g.draw(4)) {
        case 0: return d.pointlist[g.draw(d.numberofpoints - 1)];
        case 1: return centroid(d, t) + (d.pointlist[d.trianglelist[t].verts[g.draw(2)]] - centroid(d, t)) * g.real(0, 0.9);
        case 2: return d.pointlist[g.draw(d.numberofpoints - 1)] + Vector(g.real(-1, 1), g.real(-1, 1)) * (size * g.logreal(1e-6, 1));
        case 3: return d.pointlist[0] + Vector(g.real(-1, 1), g.real(-1, 1)) * (size * g.logreal(1, 1e4));
        default: return (Vector(d.pointlist[g.draw(d.numberofpoints - 1)]) + d.pointlist[g.draw(d.numberofpoints - 1)]) / 2;
    }
}

PROPERTY(single, 12000, 120000, "a sequence of voltages at points on, in, near and far from a conductor of one layer: after each the system has exactly the row and column of the nearest vertex imposed (ties aside), everything else as before; non-trivial: two different vertices are imposed") {
    Opts o;
    o.maxFaces = 4;
    o.minScale = 1e-3, o.maxScale = 1e3;
    auto L = makeLayer(g, o);
    ASSUME(L.S.clearance() > 1e-6);
    auto P = condParams(g, L.S.total(), 150);
    if (g.coin(0.001)) P.area = L.S.total() / g.logreal(3e4, 1.2e5);
    g.note("area %.17g angle %d refine %d %s", P.area, P.angle, P.refine, L.show().c_str());
    CurrentDensitySimulation sim(L.depth);
    L.draw(sim.mesh);
    auto sys = sim.generateSystem(P.refine, P.area, P.angle);
    auto& d = sim.mesh.data;
    if (d.numberofpoints > 65536) g.label("more than 65536 vertices");
    auto A = entries(sys);
    std::vector<ld> b(sys.b.begin(), sys.b.end()), tol(b.size(), 0);
    std::map<uint32_t, double> done;
    int n = 1 + g.size(0, 5);
    for (int i = 0; i < n; i++) {
        Vector p = anyPoint(g, d, L.S.size());
        bool tie;
        uint32_t id = nearest(d, p, tie);
        if (tie) continue;
        double v = done.count(id) ? done[id] : g.coin(0.2) ? 0 : g.real(-1, 1) * g.logreal(1e-3, 1e3);
        if (done.count(id)) g.label("again");
        done[id] = v;
        g.note("voltage %.17g at (%.17g,%.17g), nearest to vertex %u", v, p.x, p.y, id);
        sim.setVoltage(sys, p, v);
        impose(A, b, tol, id, v);
        compare(sys, A, b, tol, pbt::fmt("after voltage %d", i).c_str());
    }
    g.nontrivial(done.size() >= 2);
}

PROPERTY(layers, 10000, 100000, "the same in a stack of layers with resistances, where the vertices of a layer are those of its own mesh; non-trivial: two vertices in different layers are imposed") {
    auto s = makeStack(g, 60);
    g.note("%s", s.show().c_str());
    auto sim = s.make();
    s.draw(sim);
    auto sys = sim.generateSystem(s.P.refine, s.P.area, s.P.angle);
    auto o = s.offsets(sim);
    auto A = entries(sys);
    std::vector<ld> b(sys.b.begin(), sys.b.end()), tol(b.size(), 0);
    std::map<uint32_t, double> done;
    std::set<size_t> ls;
    int n = 1 + g.size(0, 5);
    for (int i = 0; i < n; i++) {
        size_t l = g.draw(s.L.size() - 1);
        Vector p = anyPoint(g, sim.meshes[g.coin(0.8) ? l : g.draw(s.L.size() - 1)].data, s.L[l].S.size());
        bool tie;
        uint32_t id = o[l] + nearest(sim.meshes[l].data, p, tie);
        if (tie) continue;
        double v = done.count(id) ? done[id] : g.coin(0.2) ? 0 : g.real(-1, 1) * g.logreal(1e-3, 1e3);
        done[id] = v;
        ls.insert(l);
        g.note("voltage %.17g in layer %zu at (%.17g,%.17g), nearest to vertex %u", v, l, p.x, p.y, id);
        sim.setVoltage(sys, p, v, l);
        impose(A, b, tol, id, v);
        compare(sys, A, b, tol, pbt::fmt("after voltage %d", i).c_str());
    }
    g.nontrivial(ls.size() >= 2);
}
