// several conducting layers joined by resistances
#pragma once
#include "conduction.hpp"

namespace scene {
struct Stack {
    std::vector<Layer> L;
    std::vector<double> depths;
    std::vector<CurrentDensityInterconnection> ic;
    Params P;
    bool unit = false;  // built with the default thickness
    std::string show() const {
        std::string s = pbt::fmt("area %.17g angle %d refine %d", P.area, P.angle, P.refine);
        for (size_t i = 0; i < L.size(); i++) s += pbt::fmt("\n layer %zu ", i) + L[i].show();
        for (auto& c : ic) s += pbt::fmt("\n %.17g between layer %zu (%.17g,%.17g) and layer %zu (%.17g,%.17g)", c.R, (size_t)c.layer1_id, c.p1.x, c.p1.y, (size_t)c.layer2_id, c.p2.x, c.p2.y);
        return s;
    }
    MultiLayerCurrentDensitySimulation make() const {
        if (unit) return MultiLayerCurrentDensitySimulation(L.size());
        return MultiLayerCurrentDensitySimulation(L.size(), depths);
    }
    void draw(MultiLayerCurrentDensitySimulation& sim) const {
        for (size_t i = 0; i < L.size(); i++) L[i].draw(sim.meshes[i]);
        for (auto& c : ic) sim.interconnections.push_back(c);
    }
    std::vector<size_t> offsets(MultiLayerCurrentDensitySimulation& sim) const {
        std::vector<size_t> o{0};
        for (auto& m : sim.meshes) o.push_back(o.back() + m.data.numberofpoints);
        return o;
    }
    // the stiffness of all layers with the resistors between the nearest vertices; false when a nearest vertex is a matter of rounding
    bool reference(MultiLayerCurrentDensitySimulation& sim, ref::Sparse& K, std::vector<std::pair<size_t, size_t>>* ends = nullptr) const {
        auto o = offsets(sim);
        for (size_t i = 0; i < L.size(); i++) addStiffness(K, o[i], sim.meshes[i], L[i]);
        for (auto& c : ic) {
            bool t1, t2;
            size_t a = o[c.layer1_id] + nearest(sim.meshes[c.layer1_id].data, c.p1, t1), b = o[c.layer2_id] + nearest(sim.meshes[c.layer2_id].data, c.p2, t2);
            if (t1 || t2) return false;
            if (ends) ends->push_back({a, b});
            addResistor(K, a, b, c.R);
        }
        return true;
    }
};
// a point of the scene's conductor where an interconnection can be
inline Vector contactPoint(pbt::Gen& g, const Layer& L) {
    int f = g.draw(L.S.faces.size() - 1);
    auto& F = L.S.faces[f];
    int k = g.draw(3);
    if (k == 0) return F.poly[g.draw(F.poly.size() - 1)];
    if (k == 1) return F.seed;
    // towards a corner from the seed
    Vector v = F.poly[g.draw(F.poly.size() - 1)];
    for (double t : {0.4, 0.25, 0.1}) {
        Vector p = F.seed + (v - F.seed) * (t * g.real(0.5, 1));
        if (L.S.faceOf(p) >= 0 && L.S.edgeDist(p) > 1e-4 * L.S.size()) return p;
    }
    return F.seed;
}
inline Stack makeStack(pbt::Gen& g, int maxTri, double minSigma = 1, double maxSigma = 1e3) {
    Stack s;
    int n = 1 + g.size(0, 3);
    Opts o;
    o.maxFaces = 3, o.maxDepth = 2;
    o.minScale = 0.1, o.maxScale = 10, o.offset = 3;
    CondOpts c;
    c.minSigma = minSigma, c.maxSigma = maxSigma;
    if (g.coin(0.02)) {
        n = 4 + g.size(0, 12), maxTri = std::max(6, maxTri * 3 / n), o.many = 0;
        g.label("many layers");
    }
    double tot = 0;
    s.unit = g.coin(0.2);
    for (int i = 0; i < n; i++) {
        if (i && g.coin(0.2)) s.L.push_back(s.L[i - 1]);  // the same outline again
        else s.L.push_back(makeLayer(g, o, c));
        if (s.unit) s.L[i].depth = 1;
        ASSUME(s.L[i].S.clearance() > 1e-5);
        s.depths.push_back(s.L[i].depth);
        tot = std::max(tot, s.L[i].S.total());
    }
    int k = g.size(0, g.coin(0.02) || n > 4 ? 4 + 2 * n : 4);
    for (int i = 0; i < k; i++) {
        CurrentDensityInterconnection c;
        if (i && g.coin(0.3)) {
            // the same place again, maybe the other way around
            c = s.ic[g.draw(i - 1)];
            if (g.coin()) std::swap(c.p1, c.p2), std::swap(c.layer1_id, c.layer2_id);
            g.label("parallel resistances");
        } else {
            c.layer1_id = g.draw(n - 1), c.layer2_id = g.draw(n - 1);
            if (n > 1 && g.coin(0.7)) c.layer2_id = (c.layer1_id + 1 + g.draw(n - 2 > 0 ? n - 2 : 0)) % n;
            c.p1 = contactPoint(g, s.L[c.layer1_id]);
            c.p2 = contactPoint(g, s.L[c.layer2_id]);
            if (g.coin(0.2) && c.layer1_id == c.layer2_id) c.p2 = c.p1;
        }
        c.R = g.coin(0.3) ? 1 : g.logreal(1e-3, 1e2);
        if (c.layer1_id == c.layer2_id) g.label("resistance within a layer");
        if (c.layer1_id > c.layer2_id) g.label("upwards");
        s.ic.push_back(c);
    }
    s.P = condParams(g, tot, maxTri);
    s.P.refine = g.coin(0.1);
    for (auto& L : s.L) s.P.refine = s.P.refine && !L.S.large();
    return s;
}
}  // namespace scene
