// permeability by BH curves
#include "magnetic.hpp"
using namespace nikfemm;
using namespace scene;

static std::vector<BH_Point> curve(pbt::Gen& g, int n) {
    // increasing in B and H, over many magnitudes
    std::vector<BH_Point> c;
    double B = g.coin(0.4) ? 0 : g.logreal(1e-3, 1), H = g.coin(0.4) ? 0 : g.logreal(1e-1, 1e4);
    for (int i = 0; i < n; i++) {
        c.push_back({B, H});
        B += g.coin(0.2) ? 0.25 : g.logreal(1e-4, 1), H += g.coin(0.2) ? 250 : g.logreal(1e-2, 1e5);
    }
    return c;
}

PROPERTY(lookup, 60000, 400000, "monotonic curves of 2 to 20, now and then up to 302, points built in any order, at flux densities below, at, between and beyond the points: the permeability is the slope of the segment that contains it, of the first below and the last beyond; non-trivial: three points and more and a flux density strictly between two of them") {
    int n = 2 + g.size(0, g.coin(0.1) ? 300 : 18);
    auto c = curve(g, n);
    auto sh = c;
    g.shuffle(sh);
    MagnetostaticProp p{g.real(-1, 1), {g.real(-1, 1), g.real(-1, 1)}, g.logreal(1e-7, 1), {}};
    for (auto& q : sh) p.bh_curve.insert(q);
    CHECK(p.bh_curve.size() == (size_t)n, "points", "%zu points of %d are in the curve", p.bh_curve.size(), n);
    CHECK(!p.isLinear(), "linear", "a material with a curve is said to be linear");
    g.note("%s", show(p).c_str());
    for (int t = 0; t < 12; t++) {
        double B;
        int k = g.draw(4), i = g.draw(n - 1);
        if (k == 0) B = c[i].B;
        else if (k == 1) B = c[n - 1].B + g.logreal(1e-6, 1e3);
        else if (k == 2) B = g.coin(0.3) ? 0 : c[0].B * g.real(0, 1);
        else {
            i = g.draw(n - 2);
            B = c[i].B + (c[i + 1].B - c[i].B) * g.real(0.001, 0.999);
            g.nontrivial(n >= 3);
        }
        // the segment that contains it; at a point shared by two either
        std::vector<ld> ok;
        for (int s = 0; s + 1 < n; s++) {
            bool lo = s == 0 ? B <= c[s + 1].B : B >= c[s].B, hi = s + 2 == n ? B >= c[s].B : B <= c[s + 1].B;
            if (n == 2 || (lo && hi)) ok.push_back(((ld)c[s + 1].B - c[s].B) / ((ld)c[s + 1].H - c[s].H));
        }
        double mu = p.getMu(B);
        CHECK(std::isfinite(mu) && mu > 0, "positive", "the permeability at %.17g is %g", B, mu);
        bool any = false;
        for (ld w : ok) any |= fabsl(mu - w) <= 1e-14L * w;
        CHECK(any, "slope", "the permeability at %.17g is %.17g, should be %.17Lg", B, mu, ok.empty() ? NAN : ok[0]);
        CHECK(p.getMu(B) == mu, "again", "the permeability at %.17g changes", B);
    }
}

PROPERTY(points, 40000, 200000, "integrating the reciprocal of the permeability from the first point on gives the field of every point and of the extended last segment; non-trivial: four points and more") {
    int n = 2 + g.size(0, g.coin(0.1) ? 100 : 12);
    auto c = curve(g, n);
    MagnetostaticProp p{0, {0, 0}, 1, {}};
    for (auto& q : c) p.bh_curve.insert(q);
    g.note("%s", show(p).c_str());
    g.nontrivial(n >= 4);
    ld H = c[0].H;
    for (int i = 0; i + 1 < n; i++) {
        // in pieces
        double x = c[i].B, e = c[i + 1].B;
        while (x < e) {
            double y = std::min(e, x + (c[i + 1].B - c[i].B) * g.real(0.1, 1));
            H += ((ld)y - x) / p.getMu((x + y) / 2);
            x = y;
        }
        CHECK(fabsl(H - c[i + 1].H) <= 1e-11L * c[i + 1].H, "point", "the field at point %d is %.17Lg, given %.17g", i + 1, H, c[i + 1].H);
    }
    double m = p.getMu(c[n - 1].B * 1.0001 + 1e-3);
    for (int i = 0; i < 5; i++) {
        double b = c[n - 1].B + g.logreal(1e-4, 1e6);
        CHECK(p.getMu(b) == m, "beyond", "the permeability is %.17g at %.17g, %.17g closer to the last point", p.getMu(b), b, m);
    }
}

PROPERTY(linear, 20000, 100000, "without a curve the permeability is the constant; a single point is refused; non-trivial: always") {
    double mu = g.logreal(1e-8, 1e2), B = g.coin(0.2) ? 0 : g.logreal(1e-9, 1e9);
    MagnetostaticProp p{g.real(-1, 1), {0, 0}, mu, {}};
    CHECK(p.isLinear() && p.getMu(B) == mu, "constant", "the permeability at %g is %.17g, should be %.17g", B, p.getMu(B), mu);
    p.bh_curve.insert({g.real(0, 2), g.real(0, 1000)});
    g.nontrivial(true);
    bool threw = false;
    try {
        p.getMu(B);
    } catch (std::exception&) {
        threw = true;
    }
    CHECK(threw, "single", "a curve of one point gives a permeability");
    // equality
    auto a = magProp(g, MagOpts(), 1), b = a;
    if (g.coin(0.3)) a.bh_curve = b.bh_curve = BH_Curve{{0, 0}, {1, g.real(100, 1000)}};
    CHECK(a == b && !(a != b), "equal", "equal materials differ: %s", show(a).c_str());
    switch (g.draw(4)) {
        case 0: b.J += 1; break;
        case 1: b.M.x += 1; break;
        case 2: b.M.y -= 1; break;
        case 3: b.mu *= 2; break;
        default: b.bh_curve.insert({g.real(3, 4), 1e5}); break;
    }
    CHECK(a != b && !(a == b), "different", "%s and %s are equal", show(a).c_str(), show(b).c_str());
}
