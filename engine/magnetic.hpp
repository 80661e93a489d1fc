// magnetostatic simulations of generated scenes
#pragma once
#include "meshing.hpp"

namespace scene {
using namespace nikfemm;
const double MU0 = 4 * M_PI * 1e-7;

struct MagOpts {
    bool J = true, M = true, mu = true;
    double maxMu = 1000;
    double fieldScale = 1;
};
inline MagnetostaticProp magProp(pbt::Gen& g, const MagOpts& o, double size) {
    MagnetostaticProp p{0, {0, 0}, MU0, {}};
    int k = g.draw(3);
    // sources of a comparable and strong field: mu0 J size ~ mu0 M ~ 1
    if (o.J && (k == 0 || k == 3)) p.J = g.pick(std::vector<double>{1, -1}) * g.logreal(0.1, 10) * o.fieldScale / (MU0 * size);
    if (o.M && (k == 1 || k == 3)) {
        double a = g.coin(0.4) ? M_PI / 2 * g.draw(3) : g.real(0, 2 * M_PI), m = g.logreal(0.1, 10) * o.fieldScale / MU0;
        p.M = {m * cos(a), m * sin(a)};
        if (fabs(p.M.x) < 1e-9 * m) p.M.x = 0;
        if (fabs(p.M.y) < 1e-9 * m) p.M.y = 0;
    }
    if (o.mu && g.coin(0.5)) p.mu = MU0 * (g.coin(0.1) ? g.real(0.5, 1) : g.logreal(1, o.maxMu));
    return p;
}
inline bool sameProp(const MagnetostaticProp& a, const MagnetostaticProp& b) { return a.J == b.J && a.M.x == b.M.x && a.M.y == b.M.y && a.mu == b.mu && a.bh_curve == b.bh_curve; }
inline std::string show(const MagnetostaticProp& p) {
    std::string s = pbt::fmt("J=%.17g M=(%.17g,%.17g) mu=%.17g", p.J, p.M.x, p.M.y, p.mu);
    for (auto& q : p.bh_curve) s += pbt::fmt(" (B %.17g H %.17g)", q.B, q.H);
    return s;
}
// the scene in a simulation with the properties of its faces
struct MagScene {
    Scene S;
    std::vector<MagnetostaticProp> prop;
    bool refine = false, refineMagnets = false;
    double area = 1;
    int angle = 33;
    std::string show() const {
        std::string s = pbt::fmt("area %.17g angle %d refine %d refine magnets %d%s", area, angle, refine, refineMagnets, S.show().c_str());
        for (size_t i = 0; i < prop.size(); i++) s += pbt::fmt("\n  #%zu %s", i, scene::show(prop[i]).c_str());
        return s;
    }
    void draw(MagnetostaticSimulation& sim) const {
        S.drawAll(sim.mesh.drawing);
        for (int i : S.order) sim.mesh.drawing.drawRegion(S.faces[i].seed, prop[i]);
    }
    System<NonLinearExpression> generate(MagnetostaticSimulation& sim) const { return sim.generateSystem(refine, area, angle, refineMagnets); }
};
inline MagScene makeMag(pbt::Gen& g, Opts o, MagOpts mo, int maxTri) {
    MagScene m;
    m.S = make(g, o);
    double sz = m.S.size();
    for (size_t i = 0; i < m.S.faces.size(); i++) m.prop.push_back(i && g.coin(0.15) ? m.prop[g.draw(i - 1)] : magProp(g, mo, sz));
    m.area = sz * sz * 3 / g.logreal(20, maxTri);
    m.angle = g.coin(0.5) ? 33 : (int)g.draw(33);
    m.refine = g.coin(0.2) && !m.S.large();
    m.refineMagnets = false;
    return m;
}
// refining magnets adds points at a tenth of the smallest feature along their edges; how many, and is it bearable
inline bool canRefineMagnets(const MagScene& M, int limit) {
    double R = M.S.size(), n = std::max(32., 2 * M_PI * R / sqrt(M.area * 4 / sqrt(3)) * 2), eps = std::min((double)M.S.clearance(), 2 * M_PI * 0.5 * R / n), per = 0;
    for (auto& f : M.S.faces)
        for (size_t i = 0; i < f.poly.size(); i++) {
            double l = Vector::distance(f.poly[i], f.poly[(i + 1) % f.poly.size()]);
            eps = std::min(eps, l);
            per += l;
        }
    return per * 20 / eps < limit;
}
// face of the scene that an element lies in, -1 for the air around
inline int elemFace(const MagScene& m, MagnetostaticSimulation& sim, uint32_t i) { return m.S.faceOf(centroid(sim.mesh.data, i) + sim.mesh.center); }
}  // namespace scene
