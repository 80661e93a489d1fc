// conduction does not depend on units, place and order; computed conductances bound the exact ones
#include "conduction.hpp"
using namespace nikfemm;
using namespace scene;

// a conductor without holes whose outline is divided in four arcs: vertex numbers of the root's outline where they start
struct Quad {
    Layer L;
    int root = 0;
    int cut[4];
    Params P;
    std::string show() const { return pbt::fmt("area %.17g angle %d refine %d, arcs start at corners %d %d %d %d of #%d; ", P.area, P.angle, P.refine, cut[0], cut[1], cut[2], cut[3], root) + L.show(); }
    int arc(int edge) const {
        int a = 3;
        for (int k = 0; k < 4; k++)
            if (edge >= cut[k]) a = k;
        return a;
    }
};
static Quad makeQuad(pbt::Gen& g, int maxTri) {
    Quad q;
    Opts o;
    o.singleRoot = true, o.grids = false, o.maxFaces = 5, o.minScale = 1e-2, o.maxScale = 1e2;
    CondOpts c;
    c.minSigma = 0.1, c.maxSigma = 10, c.minDepth = 0.1, c.maxDepth = 10;
    for (int t = 0;; t++) {
        q.L = makeLayer(g, o, c);
        for (size_t i = 0; i < q.L.S.faces.size(); i++)
            if (q.L.S.faces[i].parent < 0) q.root = i;
        if (q.L.S.faces[q.root].poly.size() >= 4 && q.L.S.clearance() > 1e-3 * q.L.S.size()) break;
        ASSUME(t < 4);
    }
    int n = q.L.S.faces[q.root].poly.size();
    std::vector<int> v(n);
    std::iota(v.begin(), v.end(), 0);
    g.shuffle(v);
    std::copy(v.begin(), v.begin() + 4, q.cut);
    std::sort(q.cut, q.cut + 4);
    q.P = condParams(g, q.L.S.total(), maxTri);
    return q;
}
// conductance between the arcs k and k+2 with the given conductivities
static double conductance(const Quad& q, int k, bool inverse, int* verts = nullptr, std::vector<double>* volts = nullptr, std::vector<Vector>* pts = nullptr) {
    Layer L = q.L;
    if (inverse)
        for (auto& s : L.sigma) s = 1 / s;
    CurrentDensitySimulation sim(L.depth);
    L.draw(sim.mesh);
    auto sys = sim.generateSystem(q.P.refine, q.P.area, q.P.angle);
    auto& d = sim.mesh.data;
    auto& poly = L.S.faces[q.root].poly;
    int n = poly.size(), na = 0, nb = 0;
    double tol = 1e-9 * L.S.size() + 1e-15 * (fabs(poly[0].x) + fabs(poly[0].y));
    for (int i = 0; i < d.numberofpoints; i++) {
        bool a = false, b = false;
        for (int e = 0; e < n; e++)
            if (segDist(d.pointlist[i], poly[e], poly[(e + 1) % n]) < tol) a |= q.arc(e) == k, b |= q.arc(e) == k + 2;
        CHECK(!(a && b), "contacts", "the contacts touch");
        if (a) na++, sim.setVoltage(sys, d.pointlist[i], 1);
        if (b) nb++, sim.setVoltage(sys, d.pointlist[i], 0);
    }
    CHECK(na >= 2 && nb >= 2, "contacts", "%d and %d vertices on the contacts", na, nb);
    auto V = sim.solve(sys);
    auto gr = sim.mesh.computeGrad(V);
    ld p = 0;
    for (int i = 0; i < d.numberoftriangles; i++) p += sigmaOf(L, sim.mesh, i) * fabsl(triArea(d, i)) * L.depth * ((ld)gr[i].x * gr[i].x + (ld)gr[i].y * gr[i].y);
    CHECK(std::isfinite((double)p) && p > 0, "power", "the conductance is %Lg", p);
    if (verts) *verts = d.numberofpoints;
    if (volts) *volts = V;
    if (pts) pts->assign(&d.pointlist[0], &d.pointlist[0] + d.numberofpoints);
    return p;
}

PROPERTY(bounds, 2500, 40000, "a conductor whose outline is divided in four contacts: the conductance between one pair, times that between the other pair in the material with reciprocal conductivities, is the square of the thickness exactly in theory and never less when computed, and approaches it in fine meshes; non-trivial: at least 30 vertices and two materials") {
    bool fine = g.coin(0.15);
    auto q = makeQuad(g, fine ? 3000 : 300);
    if (fine) q.P.area = q.L.S.total() / g.logreal(1000, 3000), q.P.angle = 30;
    g.note("%s", q.show().c_str());
    int v;
    double a = conductance(q, 0, false, &v), b = conductance(q, 1, true), r = a * b / (q.L.depth * q.L.depth);
    std::set<double> mats(q.L.sigma.begin(), q.L.sigma.end());
    g.nontrivial(v >= 30 && mats.size() > 1);
    CHECK(r >= 1 - 1e-7, "bound", "the conductances %.17g and %.17g of dual problems have the product %.17g, exact values have 1", a, b, r);
    if (fine) g.label("fine mesh");
    CHECK(r <= (fine ? 1.6 : 50), "accuracy", "the conductances %.17g and %.17g of dual problems have the product %.17g, exact values have 1", a, b, r);
}

PROPERTY(moved, 2500, 40000, "the conductor moved, turned, mirrored, scaled and drawn in another order: the interval that contains its conductance by the dual problem meets that of the original; scaled by a power of two the voltages are the same if the mesh is; non-trivial: at least 30 vertices") {
    auto q = makeQuad(g, 300);
    double lo = 0, hi, lo2, hi2;
    int v;
    std::vector<double> v1, v2;
    std::vector<Vector> p1, p2;
    hi = conductance(q, 0, false, &v, &v1, &p1);
    lo = q.L.depth * q.L.depth / conductance(q, 1, true);
    g.nontrivial(v >= 30);
    Quad w = q;
    int kind = g.draw(3);
    double s = 1, an = 0;
    Vector off(0, 0);
    bool mirror = false;
    if (kind == 0) s = ldexp(1, (int)g.draw(12) - 6);
    if (kind == 1 || kind == 3) an = g.coin() ? M_PI / 2 * (1 + g.draw(2)) : g.real(0, 2 * M_PI), s = g.logreal(0.1, 10);
    if (kind == 2 || kind == 3) mirror = g.coin(), off = Vector(g.real(-1, 1), g.real(-1, 1)) * (20 * q.L.S.size());
    bool far = kind == 2 && g.coin();
    if (far) off = off * g.logreal(10, 1e5), g.label("moved far");
    bool reorder = kind && g.coin(), reverse = kind && g.coin();
    if (far && g.coin()) mirror = reorder = reverse = false;
    auto tr = [&](Vector p) {
        if (mirror) p.x = -p.x;
        return (an ? p.rotate(an) : p) * s + off;
    };
    for (auto& f : w.L.S.faces) {
        if (f.kind == CIRCLE) {
            f.c = tr(f.c), f.r *= s;
            if (kind) f.kind = POLYGON;  // the vertices of a circle start at a fixed angle
        }
        if (kind && f.kind == RECT) f.kind = POLYGON;
        if (kind && f.kind == RECTWH) f.kind = POLYGON;
        for (auto& p : f.poly) p = tr(p);
        f.seed = tr(f.seed);
    }
    if (reverse)
        for (auto& f : w.L.S.faces) {
            std::reverse(f.poly.begin(), f.poly.end());
            if (&f == &w.L.S.faces[w.root]) {
                int n = f.poly.size();
                // edge e joins corners e and e+1; in the reversed outline it is edge n-2-e
                bool mark[4] = {};
                (void)mark;
                std::vector<int> arcOf(n);
                for (int e = 0; e < n; e++) arcOf[((n - 2 - e) % n + n) % n] = q.arc(e);
                // the arcs come in the opposite order; find where each starts
                std::vector<int> starts;
                for (int e = 0; e < n; e++)
                    if (arcOf[e] != arcOf[(e + n - 1) % n]) starts.push_back(e);
                // number them so that the arc 0/2 of the original keeps its parity
                std::copy(starts.begin(), starts.end(), w.cut);
                int a0 = arcOf[w.cut[0]];
                if (a0 % 2) w.root = -1 - w.root;  // the first arc is of the other pair
            }
        }
    bool other = w.root < 0;
    if (other) w.root = -1 - w.root;
    if (reorder) g.shuffle(w.L.S.order);
    w.P.area = q.P.area * s * s;
    if (kind == 0 || far || g.coin()) w.P.refine = q.P.refine;
    else w.P.refine = g.coin();
    g.note("%s\nthen scaled by %.17g, turned by %.17g, mirrored %d, moved by (%.17g,%.17g), reordered %d, reversed %d", q.show().c_str(), s, an, mirror, off.x, off.y, reorder, reverse);
    hi2 = conductance(w, other ? 1 : 0, false, nullptr, &v2, &p2);
    lo2 = w.L.depth * w.L.depth / conductance(w, other ? 0 : 1, true);
    double tol = far ? 1e-5 : 1e-6;
    CHECK(lo2 <= hi2 * (1 + tol), "bound", "the conductance is between %.17g and %.17g after the motion", lo2, hi2);
    CHECK(lo2 <= hi * (1 + tol) && lo <= hi2 * (1 + tol), "moved", "the conductance is between %.17g and %.17g, but between %.17g and %.17g after the motion", lo, hi, lo2, hi2);
    if (far && !mirror && !reorder && !reverse) {
        bool same = p1.size() == p2.size();
        double size = q.L.S.size();
        for (size_t i = 0; same && i < p1.size(); i++) same = Vector::distance(p1[i] + off, p2[i]) < 1e-6 * size;
        if (same) {
            g.label("moved far with the same mesh");
            CHECK(fabs(hi - hi2) <= 1e-5 * hi, "far", "the conductance is %.17g, %.17g far from the origin in the same mesh", hi, hi2);
        }
    }
    if (kind == 0) {
        g.label("scaled by a power of two");
        // (the triangulator sorts bad triangles by powers of two of their size with different ends above and below one, so the mesh may differ)
        bool same = p1.size() == p2.size();
        for (size_t i = 0; same && i < p1.size(); i++) same = p1[i].x * s == p2[i].x && p1[i].y * s == p2[i].y;
        if (same) {
            g.label("with the same mesh");
            for (size_t i = 0; i < v1.size(); i++) CHECK(fabs(v1[i] - v2[i]) < 1e-8, "scaled", "the voltage of vertex %zu is %.17g, %.17g when scaled by %g", i, v1[i], v2[i], s);
        }
    }
}

PROPERTY(material, 2000, 40000, "conductivities and thickness multiplied: the conductance is multiplied as well and the voltages stay; one part made a better conductor never lowers it; non-trivial: at least two materials") {
    auto q = makeQuad(g, 200);
    double k = g.logreal(0.3, 100), dk = g.logreal(0.3, 100);
    g.note("%s\nthen sigma times %.17g and thickness times %.17g", q.show().c_str(), k, dk);
    std::vector<double> v1, v2;
    double a = conductance(q, 0, false, nullptr, &v1);
    Quad w = q;
    for (auto& s : w.L.sigma) s *= k;
    w.L.depth *= dk;
    double b = conductance(w, 0, false, nullptr, &v2);
    CHECK(fabs(b - a * k * dk) <= 1e-8 * b, "proportional", "the conductance is %.17g, %.17g with sigma times %.17g and thickness times %.17g", a, b, k, dk);
    CHECK(v1.size() == v2.size(), "mesh", "%zu vertices, then %zu", v1.size(), v2.size());
    for (size_t i = 0; i < v1.size(); i++) CHECK(fabs(v1[i] - v2[i]) < 1e-7, "voltage", "the voltage of vertex %zu is %.17g, then %.17g", i, v1[i], v2[i]);
    Quad m = q;
    int f = g.draw(m.L.sigma.size() - 1);
    double up = g.logreal(1, 1e3);
    m.L.sigma[f] *= up;
    g.note("then sigma of #%d times %.17g", f, up);
    double c = conductance(m, 0, false);
    CHECK(c >= a * (1 - 1e-8), "monotonic", "the conductance falls from %.17g to %.17g when face #%d conducts better", a, c, f);
    CHECK(c <= a * up * (1 + 1e-8), "monotonic", "the conductance rises from %.17g to %.17g, more than the conductivity of face #%d", a, c, f);
    g.nontrivial(std::set<double>(q.L.sigma.begin(), q.L.sigma.end()).size() > 1);
}
