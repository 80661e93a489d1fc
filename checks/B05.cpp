// nonlinear solutions against the material curves
#include "magref.hpp"
using namespace nikfemm;
using namespace scene;

struct Sol {
    std::vector<double> A;
    std::vector<Vector> B;
    std::vector<MagnetostaticProp> props;
};
static Sol solve(const MagScene& M, MagnetostaticSimulation& sim) {
    Sol s;
    M.draw(sim);
    auto sys = M.generate(sim);
    s.A = sim.solve(sys);
    for (size_t i = 0; i < s.A.size(); i++) CHECK(std::isfinite(s.A[i]), "nonfinite", "the potential %zu is %g", i, s.A[i]);
    s.B = sim.mesh.computeCurl(s.A);
    for (int i = 0; i < sim.mesh.data.numberoftriangles; i++) s.props.push_back(propOf(M, sim, i));
    return s;
}
static double biggest(const std::vector<double>& a) {
    double m = 0;
    for (double x : a) m = std::max(m, fabs(x));
    return m;
}
static MagScene scene1(pbt::Gen& g, int tri) {
    Opts o;
    o.maxFaces = 4;
    o.minScale = 1e-1, o.maxScale = 1e1;
    MagOpts mo;
    mo.maxMu = 1e3;
    auto M = makeMag(g, o, mo, tri);
    ASSUME(M.S.clearance() > 1e-4);
    M.angle = 20 + g.draw(13);
    return M;
}
static bool sourced(const MagScene& M) {
    for (auto& p : M.prop)
        if (p.J != 0 || p.M.x != 0 || p.M.y != 0) return true;
    return false;
}
// the largest deviation from balance with every element at the permeability of its curve, relative to the sources
static ld imbalance(const Sol& s, const MeshData& d) {
    std::vector<double> mu;
    for (size_t i = 0; i < s.props.size(); i++) mu.push_back(s.props[i].getMu(hypot(s.B[i].x, s.B[i].y)));
    auto R = reference(s.props, mu, d);
    auto y = R.K.mul(ref::toL(s.A));
    auto far = furthest(d);
    ld e = 0, m = 0;
    for (size_t i = 0; i < y.size(); i++) {
        if (far.count(i)) continue;
        e += (y[i] - R.b[i]) * (y[i] - R.b[i]);
        m += R.b[i] * R.b[i];
    }
    return sqrtl(e / m);
}

PROPERTY(straight, 1200, 12000, "bodies whose curve is a straight line (of 2 to 6 points, not always from the origin) give the potential of the linear material of that slope; non-trivial: a source") {
    auto M = scene1(g, 200);
    auto N = M;
    bool any = false;
    for (auto& p : N.prop) {
        if (!any || g.coin(0.6)) {
            int n = 2 + g.draw(4);
            double B = g.coin() ? 0 : g.real(0, 0.5), H = B / p.mu;
            for (int i = 0; i < n; i++) p.bh_curve.insert({B, H}), B += g.logreal(0.1, 10), H = B / p.mu;
            if (g.coin()) p.mu = 1;  // not used with a curve
            any = true;
        }
    }
    g.note("%s\nfor linear %s", N.show().c_str(), M.show().c_str());
    g.nontrivial(sourced(M));
    MagnetostaticSimulation a, b;
    auto x = solve(M, a), y = solve(N, b);
    CHECK(x.A.size() == y.A.size(), "mesh", "%zu vertices, %zu with curves", x.A.size(), y.A.size());
    double m = biggest(x.A);
    for (size_t i = 0; i < x.A.size(); i++) CHECK(fabs(x.A[i] - y.A[i]) <= 1e-4 * m + 1e-12, "linear", "the potential %zu is %.17g, with a straight curve %.17g (largest %g)", i, x.A[i], y.A[i], m);
}

PROPERTY(knee, 1200, 12000, "bodies whose curve bends above every flux density of theirs behave as their first slope, in materials below and above it; non-trivial: a source") {
    auto M = scene1(g, 200);
    g.note("linear %s", M.show().c_str());
    g.nontrivial(sourced(M));
    MagnetostaticSimulation a, b;
    auto x = solve(M, a);
    auto N = M;
    // the flux density in every face
    std::vector<double> top(M.prop.size(), 0);
    for (int i = 0; i < a.mesh.data.numberoftriangles; i++) {
        Vector c = centroid(a.mesh.data, i);
        if (hypot(c.x, c.y) > a.mesh.radius * 0.9) continue;
        int f = M.S.faceOf(c + a.mesh.center);
        if (f >= 0) top[f] = std::max(top[f], hypot(x.B[i].x, x.B[i].y));
    }
    for (size_t f = 0; f < N.prop.size(); f++) {
        if (f && g.coin(0.3)) continue;
        auto& p = N.prop[f];
        double bk = top[f] * g.real(1.2, 3) + 1e-3, H = bk / p.mu;
        if (g.coin()) p.bh_curve.insert({0, 0});
        else p.bh_curve.insert({bk * 0.5, H * 0.5});
        p.bh_curve.insert({bk, H});
        int n = g.draw(3);
        for (int i = 0; i < n; i++) {
            double db = bk * g.real(0.1, 1);
            bk += db, H += db / (p.mu * g.logreal(0.02, 1));
            p.bh_curve.insert({bk, H});
        }
    }
    g.note("with curves %s", N.show().c_str());
    auto y = solve(N, b);
    CHECK(x.A.size() == y.A.size(), "mesh", "%zu vertices, %zu with curves", x.A.size(), y.A.size());
    double m = biggest(x.A);
    for (size_t i = 0; i < x.A.size(); i++) CHECK(fabs(x.A[i] - y.A[i]) <= 1e-4 * m + 1e-12, "linear", "the potential %zu is %.17g, with curves that bend above it %.17g (largest %g)", i, x.A[i], y.A[i], m);
    if (sourced(M)) CHECK(imbalance(y, b.mesh.data) < 1e-4, "balance", "the solution leaves %.3Lg of the sources with the permeabilities of the curves", imbalance(y, b.mesh.data));
}

PROPERTY(saturated, 1200, 12000, "bodies whose curve bends below every flux density of theirs behave as their last slope; non-trivial: a source in every saturated body") {
    auto M = scene1(g, 150);
    // magnets strong enough to keep their own bodies at a flux density
    g.note("linear %s", M.show().c_str());
    MagnetostaticSimulation a, b;
    auto x = solve(M, a);
    auto N = M;
    std::vector<double> low(M.prop.size(), INFINITY), top(M.prop.size(), 0);
    for (int i = 0; i < a.mesh.data.numberoftriangles; i++) {
        Vector c = centroid(a.mesh.data, i);
        if (hypot(c.x, c.y) > a.mesh.radius * 0.9) continue;
        int f = M.S.faceOf(c + a.mesh.center);
        if (f >= 0) low[f] = std::min(low[f], hypot(x.B[i].x, x.B[i].y)), top[f] = std::max(top[f], hypot(x.B[i].x, x.B[i].y));
    }
    bool any = false;
    for (size_t f = 0; f < N.prop.size(); f++) {
        if (!(low[f] > 0.02 * top[f]) || top[f] < 1e-2) continue;
        auto& p = N.prop[f];
        double bk = low[f] * g.real(0.2, 0.7), slope = p.mu * g.real(1, 3), H = bk / slope;
        p.bh_curve.insert({0, 0});
        p.bh_curve.insert({bk, H});
        p.bh_curve.insert({bk * 1.1, H + bk * 0.1 / p.mu});
        any = true;
    }
    ASSUME(any);
    g.nontrivial(sourced(M));
    g.note("with curves %s", N.show().c_str());
    auto y = solve(N, b);
    double m = biggest(x.A);
    ld im = imbalance(y, b.mesh.data);
    if (sourced(M)) CHECK(im <= 1e-4L, "balance", "the solution leaves %.3Lg of the sources with the permeabilities of the curves (largest potential %g, linear %g)", im, biggest(y.A), m);
}
