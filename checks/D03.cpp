// the property of a polygon of a drawing, with any nesting
#include "scene.hpp"
using namespace nikfemm;

template <class P, class F>
static void run(pbt::Gen& g, F mk) {
    scene::Opts o;
    o.maxFaces = 9;
    o.maxDepth = 4;
    auto S = scene::make(g, o);
    ASSUME(S.clearance() > 1e-7);
    g.note("%s", S.show().c_str());
    Drawing<P> d;
    S.drawAll(d);
    std::vector<int> order = S.order, val(S.faces.size());
    g.shuffle(order);
    for (int i : order) {
        val[i] = g.draw(4);
        d.drawRegion(S.faces[i].seed, mk(val[i]));
        g.note("region in #%d: %d", i, val[i]);
    }
    if (g.coin(0.3)) {
        Vector t(g.real(-5, 5), g.real(-5, 5));
        d.translate(t);
    }
    bool nested = false;
    for (size_t k = 0; k < S.order.size(); k++) {
        int i = S.order[k];
        nested |= !S.faces[i].children.empty();
        auto p = d.getPolygonProp(d.polygons[k]);
        int w = g.draw(4);
        CHECK((p == mk(w)) == (w == val[i]) && (p != mk(w)) == (w != val[i]), "equality", "properties %d and %d compare wrongly", val[i], w);
        CHECK(p == mk(val[i]), "property", "polygon #%d does not have the property of its region (%d)", i, val[i]);
    }
    g.nontrivial(nested && S.faces.size() >= 3);
    Polygon other = d.polygons[0];
    for (auto& v : other.points) v += Vector(1e3, 0);
    bool thrown = false;
    try {
        d.getPolygonProp(other);
    } catch (const std::exception&) {
        thrown = true;
    }
    CHECK(thrown, "unknown", "a polygon that is not in the drawing has a property");
}

PROPERTY(conductors, 80000, 900000, "a drawing of nested and adjacent shapes, one region per face, looked up by polygon; non-trivial: at least three shapes, one of which contains others") {
    run<CurrentDensityProp>(g, [](int v) { return CurrentDensityProp{1.0 + v}; });
}
PROPERTY(magnets, 40000, 450000, "as above with magnetostatic properties that differ in one member; non-trivial: at least three shapes, one of which contains others") {
    int which = g.draw(3);
    run<MagnetostaticProp>(g, [which](int v) {
        MagnetostaticProp p{0, {0, 0}, 1e-6, {}};
        if (which == 0) p.J = v;
        if (which == 1) p.M = {0, (double)v};
        if (which == 2) p.mu = 1e-6 * (1 + v);
        if (which == 3) p.bh_curve = v == 0 ? BH_Curve{} : BH_Curve{{1, 2000}, {1.5, 3000.0 + v}};
        return p;
    });
}
