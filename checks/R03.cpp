// whatever is drawn and asked for, the library succeeds or raises an error: built with the sanitizers
#include "layers.hpp"
#include "magnetic.hpp"
using namespace nikfemm;
using namespace scene;

// the outcome of a call: an error has to be a std::exception
template <class F>
static bool tryIt(F f) {
    try {
        f();
        return true;
    } catch (std::exception&) {
        return false;
    }
}
// coordinates that often coincide: a grid, sometimes shifted a little, sometimes anything
struct Places {
    pbt::Gen& g;
    int n;
    double scale;
    Vector off;
    std::vector<Vector> used;
    Places(pbt::Gen& g) : g(g) {
        n = 2 + g.draw(5);
        // powers of two, so that what coincides on the grid coincides exactly
        scale = g.coin() ? 1 : ldexp(1, (int)g.draw(32) - 16);
        off = g.coin() ? Vector(0, 0) : Vector((int)g.draw(600) - 300, (int)g.draw(600) - 300) * (scale / 128);
    }
    double size() const { return n * scale; }
    Vector operator()() {
        Vector p;
        int k = g.draw(19);
        if (k < 2 && !used.empty()) p = used[g.draw(used.size() - 1)];
        else {
            p = Vector((int)g.draw(n), (int)g.draw(n));
            if (k == 2) p.x += ldexp(1, -(int)g.draw(40));
            if (k == 3) p.y -= ldexp(1, -(int)g.draw(40));
            if (k == 4) p = Vector(g.real(0, n), g.real(0, n));
            if (k == 5) p.y = p.x;
            p = p * scale + off;
            if (k == 6) p.x = -p.x;
        }
        used.push_back(p);
        return p;
    }
};
// one drawing operation
template <class D>
static bool scribble(pbt::Gen& g, Places& P, D& d) {
    int k = g.draw(11);
    if (k < 3) {
        Vector a = P(), b = P();
        g.note(" rectangle (%.17g,%.17g) (%.17g,%.17g)", a.x, a.y, b.x, b.y);
        return tryIt([&] { d.drawRectangle(a, b); });
    }
    if (k == 3) {
        Vector a = P();
        double w = P.scale * ((int)g.draw(6) - 2), h = P.scale * ((int)g.draw(6) - 2);
        g.note(" rectangle (%.17g,%.17g) %g %g", a.x, a.y, w, h);
        return tryIt([&] { d.drawRectangle(a, w, h); });
    }
    if (k < 6) {
        Vector a = P();
        double r = P.scale * (g.coin(0.1) ? 0 : g.coin(0.1) ? -1 : g.coin() ? 1 + (int)g.draw(2) : g.real(0.1, 2));
        uint32_t n = g.coin(0.2) ? g.draw(3) : 3 + g.draw(12);
        g.note(" circle (%.17g,%.17g) r %.17g n %u", a.x, a.y, r, n);
        return tryIt([&] { d.drawCircle(a, r, n); });
    }
    if (k < 9) {
        std::vector<Vector> q;
        int n = g.coin(0.15) ? g.draw(2) : 3 + g.draw(5);
        std::string s;
        for (int i = 0; i < n; i++) q.push_back(P()), s += pbt::fmt(" (%.17g,%.17g)", q.back().x, q.back().y);
        g.note(" polygon%s", s.c_str());
        return tryIt([&] { d.drawPolygon(q); });
    }
    if (k == 9) {
        Vector a = P();
        g.note(" point (%.17g,%.17g)", a.x, a.y);
        return tryIt([&] { d.drawPoint(a); });
    }
    if (k == 10) {
        g.note(" refine");
        if (d.points.size() > 40) return true;
        return tryIt([&] { d.addRefiningPoints(); });
    }
    Vector v = P() - P();
    if (!(v.norm() > 1e-6 * P.scale)) return true;
    g.note(" translate (%.17g,%.17g)", v.x, v.y);
    P.off = P.off + v;
    for (auto& u : P.used) u = u + v;
    return tryIt([&] { d.translate(v); });
}
// the ratio between the size of the drawing and its smallest detail, infinite where segments touch outside of their
// ends. Triangles of a good quality in a gap of a millionth of the drawing are millions, and what coincides exactly
// is a millionth of a millionth apart after the drawing has been moved: nothing that can be waited for
template <class D>
static double detail(const D& d) {
    auto& p = d.points;
    auto& s = d.segments;
    double size = 0, least = INFINITY;
    for (auto& a : p) size = std::max(size, Vector::distance(a, p[0]));
    for (size_t i = 0; i < s.size(); i++)
        for (size_t j = 0; j < i; j++) {
            Vector a = p[s[i].p1], b = p[s[i].p2] - a, c = p[s[j].p1], e = p[s[j].p2] - c;
            double x = b.x * e.y - b.y * e.x;
            if (x == 0 || s[i].p1 == s[j].p1 || s[i].p1 == s[j].p2 || s[i].p2 == s[j].p1 || s[i].p2 == s[j].p2) continue;
            double t = ((c - a).x * e.y - (c - a).y * e.x) / x, u = ((c - a).x * b.y - (c - a).y * b.x) / x;
            if (t > 0 && t < 1 && u > 0 && u < 1) return INFINITY;
        }
    for (size_t i = 0; i < p.size(); i++)
        for (size_t j = 0; j < i; j++) least = std::min(least, Vector::distance(p[i], p[j]));
    for (auto& q : s)
        for (size_t i = 0; i < p.size(); i++)
            if (i != q.p1 && i != q.p2) least = std::min(least, Segment::pointSegmentDistance(p[i], p[q.p1], p[q.p2]));
    return size / least;
}
template <class M>
static void checkMesh(const M& m) {
    auto& d = m.data;
    CHECK(d.numberofpoints >= 0 && d.numberoftriangles >= 0, "counts", "%d points, %d triangles", d.numberofpoints, d.numberoftriangles);
    for (int i = 0; i < d.numberofpoints; i++) CHECK(std::isfinite(d.pointlist[i].x) && std::isfinite(d.pointlist[i].y), "points", "point %d is (%g,%g)", i, d.pointlist[i].x, d.pointlist[i].y);
    for (int i = 0; i < d.numberoftriangles; i++) {
        auto& t = d.trianglelist[i].verts;
        for (int k = 0; k < 3; k++) CHECK(t[k] >= 0 && t[k] < (int)d.numberofpoints, "triangles", "triangle %d has the vertex %d of %d", i, (int)t[k], d.numberofpoints);
        CHECK(t[0] != t[1] && t[1] != t[2] && t[0] != t[2], "triangles", "triangle %d is %d %d %d", i, (int)t[0], (int)t[1], (int)t[2]);
    }
}
struct Ask {
    bool refine;
    double area;
    int angle;
};
static Ask ask(pbt::Gen& g, double size) {
    Ask a;
    a.refine = g.coin(0.3);
    a.area = size * size / g.logreal(1, 600);
    a.angle = g.draw(20);  // above, ending is not guaranteed where segments meet at small angles
    if (g.coin(0.05)) a.area = g.pick(std::vector<double>{0, -1, -INFINITY, INFINITY, NAN, 1e300, 1e30});
    if (g.coin(0.05)) a.angle = g.pick(std::vector<int>{-1, 61, 90, 1000000, -2147483647 - 1, 2147483647});
    return a;
}
template <class D>
static bool limit(pbt::Gen& g, Ask& a, const D& d) {
    double e = detail(d);
    if (e > 1000 && d.points.size() > 1) {
        // the mesher runs out of precision, of memory or of patience
        g.label("fine detail");
        return false;
    }
    if (e > 100 || d.points.size() > 60) a.refine = false;
    double w = 0;
    for (auto& p : d.points) w = std::max(w, Vector::distance(p, d.points[0]));
    if (d.points.empty()) w = 1;
    if (a.area > 0) a.area = std::max(a.area, w * w / 600);
    g.note(" generate: refine %d area %.17g angle %d", a.refine, a.area, a.angle);
    return true;
}
static double value(pbt::Gen& g) {
    switch (g.draw(5)) {
        case 0: return 0;
        case 1: return -1 - (int)g.draw(3);
        case 2: return g.logreal(1e-30, 1e30);
        case 3: return 1;
        default: return g.logreal(1e-3, 1e3);
    }
}

PROPERTY_H(conductors, 1600, 30000, "any drawing operations in any number of layers (crossing, degenerate, empty, repeated; only drawings without crossings or details below a thousandth of their size are meshed), regions, resistances and voltages anywhere, parameters out of range, any order of generation and solution: no memory error or undefined behaviour, no endless loop, only std::exception, meshes refer to their own points; non-trivial: a solution", 110) {
    int n = g.draw(3);
    std::vector<double> depths;
    for (int i = 0; i < n; i++) depths.push_back(g.coin(0.9) ? 1 : value(g));
    g.note("%d layers", n);
    MultiLayerCurrentDensitySimulation sim(n, depths);
    std::vector<Places> P;
    for (int i = 0; i < n; i++) P.emplace_back(g);
    if (n) {
        // something to start with, most of the time
        for (int i = 0; i < n; i++)
            if (g.coin(0.7)) {
                Vector a = P[i].off;
                g.note("layer %d rectangle (%.17g,%.17g) %g", i, a.x, a.y, P[i].size());
                sim.meshes[i].drawing.drawRectangle(a, P[i].size(), P[i].size());
                sim.meshes[i].drawing.drawRegion(a + Vector(0.013, 0.017) * P[i].scale, {g.coin(0.8) ? 1 : value(g)});
            }
        int k = g.size(0, 12);
        for (int i = 0; i < k; i++) {
            int l = g.draw(n - 1);
            if (g.coin(0.3)) {
                Vector p = P[l]();
                if (g.coin(0.1)) p = p * 100;
                double s = value(g);
                g.note("layer %d region (%.17g,%.17g) %g", l, p.x, p.y, s);
                sim.meshes[l].drawing.drawRegion(p, {s});
            } else if (g.coin(0.2)) {
                CurrentDensityInterconnection c;
                c.layer1_id = l, c.layer2_id = g.draw(n - 1);
                c.p1 = P[l](), c.p2 = P[c.layer2_id]();
                c.R = value(g);
                g.note("resistance %g: layer %d (%.17g,%.17g) layer %d (%.17g,%.17g)", c.R, l, c.p1.x, c.p1.y, (int)c.layer2_id, c.p2.x, c.p2.y);
                sim.interconnections.push_back(c);
            } else {
                g.note("layer %d", l);
                scribble(g, P[l], sim.meshes[l].drawing);
            }
        }
    }
    std::unique_ptr<System<double>> sys;
    bool solved = false;
    int rounds = 1 + g.draw(1);
    double size = 1;
    for (auto& p : P) size = std::max(p.size(), &p == &P[0] ? 0 : size);
    for (int r = 0; r < rounds; r++) {
        Ask a = ask(g, size);
        for (auto& m : sim.meshes)
            if (!limit(g, a, m.drawing)) return;
        if (!tryIt([&] { sys = std::make_unique<System<double>>(sim.generateSystem(a.refine, a.area, a.angle)); })) {
            g.label("generation fails");
            continue;
        }
        int total = 0;
        for (auto& m : sim.meshes) checkMesh(m), total += m.data.numberofpoints;
        if (total > 1500) {
            g.label("large");
            return;
        }
        int k = g.draw(4);
        for (int i = 0; i < k && n; i++) {
            int l = g.draw(n - 1);
            Vector p = g.coin(0.9) ? P[l]() : Vector(g.real(-1, 1), g.real(-1, 1)) * 1e6;
            double v = g.mixed();
            g.note(" %g V in layer %d at (%.17g,%.17g)", v, l, p.x, p.y);
            tryIt([&] { sim.setVoltage(*sys, p, v, l); });
        }
        std::vector<double> V;
        if (!tryIt([&] { V = sim.solve(*sys); })) {
            g.label("solution fails");
            continue;
        }
        CHECK(V.size() == sys->b.size(), "solution", "%zu values for %zu unknowns", V.size(), sys->b.size());
        solved = V.size() > 3;
        tryIt([&] { sim.computePowerDensity(V); });
        for (int l = 0; l < n; l++) {
            auto& m = sim.meshes[l];
            Vector p = P[l](), c = P[l]();
            tryIt([&] { m.computeAreaIntegral(p); });
            tryIt([&] { m.computeMass(p, 2); });
            tryIt([&] { m.computeBarycenter(p); });
            tryIt([&] { m.computeInertiaMoment(p, c, 2); });
            tryIt([&] { m.drawing.getPolygonProp(m.getInnermostPolygon(p)); });
        }
    }
    if (solved) g.label("solved");
    if (n == 0) g.label("no layers");
    g.nontrivial(solved);
}

PROPERTY_H(magnets, 1200, 20000, "any drawing operations (meshed as above), any magnetic properties and curves (zero, negative, unsorted in flux, single points), regions anywhere, parameters out of range, forces and torques at any place: no memory error or undefined behaviour, no endless loop, only std::exception; non-trivial: a solution", 110) {
    MagnetostaticSimulation sim;
    Places P(g);
    if (g.coin(0.2)) sim.depth = value(g);
    if (g.coin(0.8)) {
        Vector a = P.off;
        g.note("rectangle (%.17g,%.17g) %g", a.x, a.y, P.size());
        sim.mesh.drawing.drawRectangle(a, P.size(), P.size());
        sim.mesh.drawing.drawRegion(a + Vector(0.013, 0.017) * P.scale, {g.coin() ? 1e6 : 0, {1e5, 0}, MU0, {}});
    }
    int k = g.size(0, 10);
    for (int i = 0; i < k; i++) {
        if (g.coin(0.35)) {
            Vector p = P();
            if (g.coin(0.1)) p = p * 100;
            MagnetostaticProp q{g.coin() ? 0 : 1e6 * g.real(-1, 1), {g.coin() ? 0 : 1e6 * g.real(-1, 1), 0}, g.coin(0.9) ? MU0 * g.logreal(1, 1e4) : value(g), {}};
            if (g.coin(0.4)) {
                int m = g.draw(5);
                for (int z = 0; z < m; z++) {
                    double B = g.coin(0.8) ? 0.4 * z : g.real(-1, 3), H = g.coin(0.8) ? 200. * z * z : g.real(-100, 1e5);
                    q.bh_curve.insert({B, H});
                }
            }
            g.note("region (%.17g,%.17g) %s", p.x, p.y, scene::show(q).c_str());
            sim.mesh.drawing.drawRegion(p, q);
        } else scribble(g, P, sim.mesh.drawing);
    }
    Ask a = ask(g, P.size() * 3);
    if (!limit(g, a, sim.mesh.drawing)) return;
    bool magnets = g.coin(0.1) && sim.mesh.drawing.points.size() < 15;
    bool fine = false;
    if (magnets) {
        // refining magnets adds points at a tenth of the smallest feature, along the outer circle as well when there is a
        // magnet outside of all polygons, and looks at every edge for each of them, once for every corner of the magnet
        double e = INFINITY, per = 0, edges = 0;
        for (auto& [p, id] : sim.mesh.drawing.regions) {
            bool in = false;
            for (auto& q : sim.mesh.drawing.polygons) in |= q.contains(p);
            if (!in) magnets = false;
        }
        tryIt([&] { e = sim.mesh.drawing.getCurrentEpsilon(); });
        for (auto& s : sim.mesh.drawing.segments) {
            double l = Vector::distance(sim.mesh.drawing.points[s.p1], sim.mesh.drawing.points[s.p2]);
            per += l, e = std::min(e, l), edges++;
        }
        if (per * 20 / e > 1000 || per * 20 / e * edges * (edges + 150) > 2e7) magnets = false;
    }
    std::unique_ptr<System<NonLinearExpression>> sys;
    if (!tryIt([&] { sys = std::make_unique<System<NonLinearExpression>>(sim.generateSystem(a.refine, a.area, a.angle, magnets)); })) {
        g.label("generation fails");
        return;
    }
    checkMesh(sim.mesh);
    if (sim.mesh.data.numberofpoints > 1200) {
        g.label("large");
        return;
    }
    std::vector<double> A;
    if (!tryIt([&] { A = sim.solve(*sys); })) {
        g.label("solution fails");
        return;
    }
    CHECK((int)A.size() == sim.mesh.data.numberofpoints, "solution", "%zu values for %d points", A.size(), sim.mesh.data.numberofpoints);
    fine = true;
    g.label("solved");
    g.nontrivial(fine);
    auto B = sim.mesh.computeCurl(A);
    CHECK((int)B.size() == sim.mesh.data.numberoftriangles, "field", "%zu values for %d triangles", B.size(), sim.mesh.data.numberoftriangles);
    for (int i = 0; i < 3; i++) {
        Vector p = P() - sim.mesh.center, c = P();
        if (i == 2) p = P() * 100;
        bool ok = tryIt([&] { sim.computeForceIntegrals(B, p); });
        tryIt([&] { sim.computeTorqueIntegral(B, p, c); });
        tryIt([&] { sim.computeStressIntegral(B, p, c); });
        tryIt([&] { sim.mesh.computeAreaIntegral(p); });
        tryIt([&] { sim.mesh.computeInertiaMoment(p, c, 3); });
        tryIt([&] { sim.mesh.computeBarycenter(p); });
        if (ok) g.label("force");
    }
}

// what can be asked of a mesh at any time, whether something has been meshed or not
template <class M>
static void question(pbt::Gen& g, Places& P, M& m) {
    Vector p = P(), c = P();
    auto& d = m.data;
    switch (g.draw(6)) {
        case 0: tryIt([&] { m.computeAreaIntegral(p); }); break;
        case 1: tryIt([&] { m.computeMass(p, 2); }); break;
        case 2: tryIt([&] { m.computeBarycenter(p); }); break;
        case 3: tryIt([&] { m.computeInertiaMoment(p, c, 2); }); break;
        case 4: tryIt([&] { m.drawing.getPolygonProp(m.getInnermostPolygon(p)); }); break;
        case 5: tryIt([&] { m.computeEpsilon(); }); break;
        default: {
            std::vector<double> v(d.numberofpoints);
            auto a = m.computeGrad(v), b = m.computeCurl(v);
            CHECK((int)a.size() == d.numberoftriangles && (int)b.size() == d.numberoftriangles, "fields", "%zu and %zu values for %d triangles", a.size(), b.size(), (int)d.numberoftriangles);
        }
    }
}

PROPERTY_H(states, 1500, 20000, "calls on simulations of all three kinds in any state (just constructed, drawn on but not meshed, after a failed generation, meshed, solved, meshed again): voltages, solutions, fields, integrals, forces; no memory error or undefined behaviour, only std::exception, a voltage without a node changes nothing; non-trivial: both with and without a mesh", 110) {
    Places P(g);
    int kind = g.draw(2), n = g.draw(2);
    CurrentDensitySimulation one = g.coin() ? CurrentDensitySimulation() : CurrentDensitySimulation(1);
    MultiLayerCurrentDensitySimulation many(n);
    MagnetostaticSimulation mag;
    System<double> sys(0);
    System<NonLinearExpression> msys(0);
    bool with = false, without = false;
    g.note("%s", kind == 0 ? "conductor" : kind == 1 ? pbt::fmt("%d layers", n).c_str() : "magnetic");
    int k = 1 + g.size(0, 14);
    for (int i = 0; i < k; i++) {
        int l = kind == 1 && n ? g.draw(n - 1) : 0, op = g.draw(9);
        uint64_t nodes = kind == 0 ? one.mesh.data.numberofpoints : kind == 2 ? mag.mesh.data.numberofpoints : 0;
        if (kind == 1)
            for (auto& m : many.meshes) nodes += m.data.numberofpoints;
        (nodes ? with : without) = true;
        if (op < 2) {
            if (g.coin(0.7)) {
                Vector a = P.off, b = a + Vector(0.013, 0.017) * P.scale;
                g.note("rectangle with a region in layer %d", l);
                if (kind == 0) tryIt([&] { one.mesh.drawing.drawRectangle(a, P.size(), P.size()), one.mesh.drawing.drawRegion(b, {1}); });
                if (kind == 1 && n) tryIt([&] { many.meshes[l].drawing.drawRectangle(a, P.size(), P.size()), many.meshes[l].drawing.drawRegion(b, {1}); });
                if (kind == 2) tryIt([&] { mag.mesh.drawing.drawRectangle(a, P.size(), P.size()), mag.mesh.drawing.drawRegion(b, {1e6, {1e5, 0}, MU0, {}}); });
            } else {
                g.note("layer %d", l);
                if (kind == 0) scribble(g, P, one.mesh.drawing);
                if (kind == 1 && n) scribble(g, P, many.meshes[l].drawing);
                if (kind == 2) scribble(g, P, mag.mesh.drawing);
            }
        } else if (op < 4) {
            Ask a = ask(g, P.size());
            bool ok = true;
            if (kind == 0) {
                if (!limit(g, a, one.mesh.drawing)) return;
                sys = System<double>(0);
                ok = tryIt([&] { sys = one.generateSystem(a.refine, a.area, a.angle); });
                // the system of an older mesh is of no use
                if (!ok) sys = System<double>(one.mesh.data.numberofpoints);
            }
            if (kind == 1) {
                for (auto& m : many.meshes)
                    if (!limit(g, a, m.drawing)) return;
                ok = tryIt([&] { sys = many.generateSystem(a.refine, a.area, a.angle); });
                int t = 0;
                for (auto& m : many.meshes) t += m.data.numberofpoints;
                if (!ok) sys = System<double>(t);
            }
            if (kind == 2) {
                if (!limit(g, a, mag.mesh.drawing)) return;
                ok = tryIt([&] { msys = mag.generateSystem(a.refine, a.area, a.angle); });
                if (!ok) msys = System<NonLinearExpression>(mag.mesh.data.numberofpoints);
            }
            if (!ok) g.label("generation fails");
            if (std::max(sys.b.size(), msys.b.size()) > 1200) return;
        } else if (op < 6) {
            Vector p = P();
            double v = g.mixed();
            g.note("%g V in layer %d at (%.17g,%.17g)", v, l, p.x, p.y);
            auto A = sys.A.elems;
            auto b = sys.b;
            bool none = true;
            if (kind == 0) none = one.mesh.data.numberofpoints == 0, tryIt([&] { one.setVoltage(sys, p, v); });
            if (kind == 1 && n) none = many.meshes[l].data.numberofpoints == 0, tryIt([&] { many.setVoltage(sys, p, v, l); });
            if (none) CHECK(A == sys.A.elems && b == sys.b, "voltage", "a voltage in a layer that has no nodes changes the system");
        } else if (op == 6) {
            g.note("solve");
            std::vector<double> V;
            bool ok;
            if (kind == 0) ok = tryIt([&] { V = one.solve(sys); });
            if (kind == 1) ok = tryIt([&] { V = many.solve(sys), many.computePowerDensity(V); });
            if (kind == 2) ok = tryIt([&] { V = mag.solve(msys); });
            if (ok) CHECK(V.size() == nodes, "solution", "%zu values for %zu nodes", V.size(), (size_t)nodes);
        } else if (op == 7 && kind == 2) {
            std::vector<Vector> B(mag.mesh.data.numberoftriangles, Vector(0.1, 0.2));
            Vector p = P() - mag.mesh.center, c = P();
            g.note("force at (%.17g,%.17g)", p.x, p.y);
            tryIt([&] { mag.computeForceIntegrals(B, p); });
            tryIt([&] { mag.computeTorqueIntegral(B, p, c); });
            tryIt([&] { mag.computeStressIntegral(B, p, c); });
        } else {
            g.note("question");
            if (kind == 0) question(g, P, one.mesh);
            if (kind == 1 && n) question(g, P, many.meshes[l]);
            if (kind == 2) question(g, P, mag.mesh);
        }
    }
    if (without) g.label("without a mesh");
    if (with) g.label("with a mesh");
    g.nontrivial(with && without);
}

PROPERTY(geometry, 4000, 60000, "polygons, circles, segments and vectors of any kind, degenerate and repeated points included: every geometric function ends without undefined behaviour, smallest circles enclose their points; non-trivial: 3 points") {
    Places P(g);
    std::vector<Vector> v;
    int n = g.size(0, 14);
    for (int i = 0; i < n; i++) v.push_back(P());
    std::string s;
    for (auto& p : v) s += pbt::fmt(" (%.17g,%.17g)", p.x, p.y);
    g.note("%s", s.c_str());
    g.nontrivial(n >= 3);
    double m = 0;
    for (auto& p : v) m = std::max({m, fabs(p.x), fabs(p.y)});
    Circle c;
    if (tryIt([&] { c = Circle::getMinimumEnclosingCircle(v); }) && n)
        for (auto& p : v) CHECK(Vector::distance(p, c.center) <= c.radius * (1 + 1e-6) + 1e-9 * m, "circle", "(%.17g,%.17g) is %g from the center of the circle of radius %g", p.x, p.y, Vector::distance(p, c.center), c.radius);
    if (tryIt([&] { c = Circle::getEnclosingCircle(v); }) && n)
        for (auto& p : v) CHECK(Vector::distance(p, c.center) <= c.radius * (1 + 1e-6) + 1e-9 * m, "circle", "(%.17g,%.17g) is %g from the center of the enclosing circle of radius %g", p.x, p.y, Vector::distance(p, c.center), c.radius);
    Polygon q(v);
    Vector a = P(), b = P(), d = P(), e = P();
    tryIt([&] { q.contains(a); });
    tryIt([&] { q.contains(a, g.coin(), 1e-9); });
    tryIt([&] { q.contains(Polygon(std::vector<Vector>{a, b, d})); });
    Polygon r(q), t;
    t = q;
    CHECK(r == q && t == q, "copy", "a copy of a polygon is different");
    tryIt([&] { t.translate(b).rotate(1, a); });
    tryIt([&] { Segment::segmentsIntersect(a, b, d, e); });
    double dist = 0;
    if (tryIt([&] { dist = Segment::pointSegmentDistance(a, b, d); })) CHECK(dist >= 0, "distance", "%g", dist);
    // a segment of zero length
    if (tryIt([&] { dist = Segment::pointSegmentDistance(a, b, b); })) CHECK(fabs(dist - Vector::distance(a, b)) <= 1e-9 * (m + fabs(a.x) + fabs(b.x) + fabs(a.y) + fabs(b.y)), "distance", "%g instead of %g to a segment of zero length", dist, Vector::distance(a, b));
    Drawing<CurrentDensityProp> D;
    int k = g.size(0, 10);
    for (int i = 0; i < k; i++) scribble(g, P, D);
    if (D.points.size()) tryIt([&] { D.getCurrentEpsilon(); });
    for (auto& x : D.segments) CHECK(x.p1 < D.points.size() && x.p2 < D.points.size(), "drawing", "a segment joins %u and %u of %zu points", x.p1, x.p2, D.points.size());
    for (auto& x : D.polygons) tryIt([&] { D.getPolygonProp(x); });
}
