// every element carries the property of the region it lies in
#include "meshing.hpp"
using namespace nikfemm;
using namespace scene;

// any conductivity, or one that another face nearly has
static double material(pbt::Gen& g, const std::set<double>& others) {
    switch (g.draw(5)) {
        case 0: return 1;
        case 1: return (double)(1 + g.draw(3));
        case 2: return g.logreal(1e-3, 1e8);
        case 3: return g.logreal(1e-18, 1e-6);
        default: {
            if (others.empty()) return 5e7;
            auto it = others.begin();
            std::advance(it, g.draw(others.size() - 1));
            return g.coin() ? nextafter(*it, INFINITY) : *it * (1 + pow(10, -1 - (double)g.draw(13)));
        }
    }
}

PROPERTY(regions, 8000, 60000, "a drawing of nested and adjacent shapes, regions drawn in any order, some faces with the same property or marked twice: every element against the innermost shape that contains it; non-trivial: at least two distinct properties in neighbouring or nested shapes") {
    Opts o;
    o.maxFaces = 9;
    o.maxDepth = 4;
    o.minScale = 1e-3, o.maxScale = 1e3;
    auto S = make(g, o);
    ASSUME(S.clearance() > 1e-7);
    auto P = params(g, S, 800);
    g.note("area %.17g angle %d refine %d%s", P.area, P.angle, P.refine, S.show().c_str());
    CurrentDensityMesh m;
    S.drawAll(m.drawing);
    std::vector<int> order = S.order;
    g.shuffle(order);
    std::vector<double> val(S.faces.size());
    std::set<double> distinct;
    for (int i : order) {
        val[i] = material(g, distinct);
        distinct.insert(val[i]);
        m.drawing.drawRegion(S.faces[i].seed, {val[i]});
        g.note("#%d has %.17g", i, val[i]);
    }
    if (g.coin(0.3)) m.drawing.drawRegion(S.faces[order[0]].seed, {val[order[0]]}), g.label("a face marked twice");
    if (g.coin(0.2)) {
        // a region in the open is nobody's
        m.drawing.drawRegion(S.faces[0].seed + Vector(10 * S.size(), 0), {77});
        g.label("region outside");
    }
    if (P.refine) m.drawing.addRefiningPoints();
    m.mesh(P.area, P.angle);
    auto& d = m.data;
    g.nontrivial(distinct.size() >= 2);
    std::vector<ld> area(S.faces.size());
    for (int i = 0; i < d.numberoftriangles; i++) {
        Vector c = centroid(d, i);
        int f = S.faceOf(c);
        CHECK(f >= 0, "outside", "triangle %d is outside of the drawing", i);
        area[f] += fabsl(triArea(d, i));
        auto p = m.drawing.getRegionPtrFromId(d.triangleattributelist[i]);
        CHECK(p->sigma == val[f], "property", "triangle %d at (%.17g,%.17g) has %.17g, its region #%d has %.17g", i, c.x, c.y, p->sigma, f, val[f]);
    }
    double mag = S.size();
    for (auto& f : S.faces)
        for (auto& v : f.poly) mag = std::max({mag, fabs(v.x), fabs(v.y)});
    for (size_t f = 0; f < S.faces.size(); f++) CHECK(fabsl(area[f] - S.own(f)) <= 1e-9L * S.faces[f].area + 1e-10L * mag * S.size(), "area", "the elements of region #%zu have the area %.17Lg, should be %.17g", f, area[f], S.own(f));
}

PROPERTY(magnetic, 5000, 40000, "the same for magnetic properties, of which many differ from another in only one of current, magnetisation, permeability and curve; non-trivial: two properties that differ in one of these only") {
    Opts o;
    o.maxFaces = 8;
    o.maxDepth = 4;
    o.minScale = 1e-3, o.maxScale = 1e3;
    auto S = make(g, o);
    ASSUME(S.clearance() > 1e-7);
    auto P = params(g, S, 400);
    g.note("area %.17g angle %d refine %d%s", P.area, P.angle, P.refine, S.show().c_str());
    MagnetostaticMesh m;
    S.drawAll(m.drawing);
    std::vector<int> order = S.order;
    g.shuffle(order);
    std::vector<MagnetostaticProp> val(S.faces.size());
    int near = 0;
    for (size_t k = 0; k < order.size(); k++) {
        MagnetostaticProp p{0, {0, 0}, magnetostatic_materials::air, {}};
        if (k && g.coin(0.7)) {
            p = val[order[g.draw(k - 1)]];
            near++;
            switch (g.draw(5)) {
                case 0: p.J += g.logreal(1e-12, 1e6); break;
                case 1: p.M.x += g.logreal(1e-6, 1e6); break;
                case 2: p.M.y -= g.logreal(1e-6, 1e6); break;
                case 3: p.mu *= 1 + g.logreal(1e-12, 1e3); break;
                case 4: {
                    double b = p.bh_curve.empty() ? 0 : p.bh_curve.rbegin()->B, h = p.bh_curve.empty() ? 0 : p.bh_curve.rbegin()->H;
                    p.bh_curve.insert({b + g.logreal(1e-6, 1), h + g.logreal(1e-3, 1e5)});
                    break;
                }
                default: near--;
            }
        } else if (g.coin()) {
            p.J = g.mixed(1e6);
            if (g.coin()) p.M = Vector(g.real(-1e6, 1e6), g.real(-1e6, 1e6));
            if (g.coin()) p.mu = g.logreal(1e-7, 1e-2);
        }
        val[order[k]] = p;
        m.drawing.drawRegion(S.faces[order[k]].seed, p);
    }
    auto show = [](const MagnetostaticProp& p) {
        std::string s = pbt::fmt("J=%.17g M=(%.17g,%.17g) mu=%.17g", p.J, p.M.x, p.M.y, p.mu);
        for (auto& b : p.bh_curve) s += pbt::fmt(" (%.17g %.17g)", b.B, b.H);
        return s;
    };
    for (int i : order) g.note("#%d %s", i, show(val[i]).c_str());
    g.nontrivial(near > 0);
    if (P.refine) m.drawing.addRefiningPoints();
    m.mesh(P.area, P.angle);
    auto& d = m.data;
    for (int i = 0; i < d.numberoftriangles; i++) {
        Vector c = centroid(d, i);
        int f = S.faceOf(c);
        CHECK(f >= 0, "outside", "triangle %d is outside of the drawing", i);
        auto p = m.drawing.getRegionPtrFromId(d.triangleattributelist[i]);
        auto& q = val[f];
        bool same = p->J == q.J && p->M.x == q.M.x && p->M.y == q.M.y && p->mu == q.mu && p->bh_curve.size() == q.bh_curve.size();
        if (same)
            for (auto a = p->bh_curve.begin(), b = q.bh_curve.begin(); a != p->bh_curve.end(); a++, b++) same &= a->B == b->B && a->H == b->H;
        CHECK(same, "property", "triangle %d at (%.17g,%.17g) has %s, its region #%d has %s", i, c.x, c.y, show(*p).c_str(), f, show(q).c_str());
    }
}

PROPERTY(many, 80, 600, "a grid of up to 450 touching rectangles, each of another conductivity, regions drawn in any order: every element against the cell it lies in; non-trivial: more than 256 of them") {
    int n = g.coin(0.8) ? 257 + (int)g.draw(193) : 60 + (int)g.draw(197), w = 1 + (int)g.draw(g.coin() ? 3 : 30);
    int h = (n + w - 1) / w;
    double s = g.logreal(1e-2, 1e2);
    bool mag = g.coin(0.3);
    std::vector<int> order, val(n);
    for (int i = 0; i < n; i++) order.push_back(i);
    g.shuffle(order);
    int dup = g.coin(0.2) ? 1 + (int)g.draw(20) : 0;  // some of them with the material of another
    for (int i = 0; i < n; i++) val[order[i]] = i < n - dup ? i : (int)g.draw(n - 1);
    g.note("%d cells, %d in a row of %d rows, of size %.17g", n, w, h, s);
    g.nontrivial(n - dup > 256);
    auto run = [&](auto& m, auto prop, auto number) {
        for (int i = 0; i < n; i++) m.drawing.drawRectangle(Vector(i % w, i / w) * s, Vector(i % w + 1, i / w + 1) * s);
        for (int i : order) m.drawing.drawRegion(Vector(i % w + 0.5, i / w + 0.5) * s, prop(val[i]));
        m.mesh(s * s, 20);
        auto& d = m.data;
        std::vector<ld> area(n);
        for (int i = 0; i < d.numberoftriangles; i++) {
            Vector c = centroid(d, i) / s;
            int k = (int)floor(c.y) * w + (int)floor(c.x);
            CHECK(c.x > 0 && c.y > 0 && c.x < w && k < n, "outside", "triangle %d at (%g,%g) is outside of the drawing", i, c.x, c.y);
            area[k] += fabsl(triArea(d, i));
            int v = number(*m.drawing.getRegionPtrFromId(d.triangleattributelist[i]));
            CHECK(v == val[k], "property", "triangle %d in cell %d has the material %d, should be %d", i, k, v, val[k]);
        }
        for (int k = 0; k < n; k++) CHECK(fabsl(area[k] - (ld)s * s) <= 1e-7L * s * s, "area", "cell %d has the area %.17Lg", k, area[k]);
    };
    if (mag) {
        MagnetostaticMesh m;
        run(m, [](int i) { return MagnetostaticProp{(double)i, {0, 0}, magnetostatic_materials::air, {}}; }, [](const MagnetostaticProp& p) { return (int)p.J; });
    } else {
        CurrentDensityMesh m;
        run(m, [](int i) { return CurrentDensityProp{1.0 + i}; }, [](const CurrentDensityProp& p) { return (int)p.sigma - 1; });
    }
}
