// area, mass, barycenter and moment of inertia of bodies
#include "magnetic.hpp"
using namespace nikfemm;
using namespace scene;

struct Moments {
    ld area = 0, x = 0, y = 0, polar = 0;  // barycenter; polar moment about the barycenter
};
static Moments exact(const Poly& p) {
    // about the first vertex to keep the digits
    Moments m;
    ld ox = p[0].x, oy = p[0].y, a = 0, sx = 0, sy = 0, ip = 0;
    for (size_t i = 0; i < p.size(); i++) {
        ld x0 = p[i].x - ox, y0 = p[i].y - oy, x1 = p[(i + 1) % p.size()].x - ox, y1 = p[(i + 1) % p.size()].y - oy, c = x0 * y1 - x1 * y0;
        a += c / 2;
        sx += c * (x0 + x1) / 6;
        sy += c * (y0 + y1) / 6;
        ip += c * (x0 * x0 + x0 * x1 + x1 * x1 + y0 * y0 + y0 * y1 + y1 * y1) / 12;
    }
    ld cx = sx / a, cy = sy / a;
    m.area = fabsl(a);
    m.x = ox + cx, m.y = oy + cy;
    m.polar = fabsl(ip) - m.area * (cx * cx + cy * cy);
    return m;
}
template <class M>
static void body(pbt::Gen& g, M& m, const Scene& S, double depth) {
    double mag = S.size();
    for (auto& f : S.faces)
        for (auto& v : f.poly) mag = std::max({mag, fabs(v.x), fabs(v.y)});
    int asked = 0;
    for (int tries = 0; tries < 6; tries++) {
        // a point of a face: its seed, or anywhere
        int f;
        Vector p;
        if (g.coin(0.4)) f = g.draw(S.faces.size() - 1), p = S.faces[f].seed;
        else {
            auto& q = g.pick(S.faces);
            double r = diameter(q.poly);
            p = q.poly[0] + Vector(g.real(-1, 1), g.real(-1, 1)) * r;
        }
        f = S.faceOf(p);
        if (f < 0 || S.edgeDist(p) < 1e-6 * S.size()) continue;
        asked++;
        auto& F = S.faces[f];
        if (F.children.size()) g.label("body with others inside");
        auto E = exact(F.poly);
        double rho = g.logreal(1e-3, 1e5);
        Vector c = g.coin(0.3) ? Vector((double)E.x, (double)E.y) : g.coin(0.3) ? Vector(0, 0) : p + Vector(g.real(-2, 2), g.real(-2, 2)) * S.size();
        double a = m.computeAreaIntegral(p), mass = m.computeMass(p, rho), in = m.computeInertiaMoment(p, c, rho);
        Vector b = m.computeBarycenter(p);
        ld eps = 1e-15L * mag, per = diameter(F.poly);
        // the area of a triangle is computed from products of its coordinates
        ld dA = 1e-16L * mag * mag * m.data.numberoftriangles, ta = 1e-10L * E.area + 100 * eps * per + dA;
        g.note("point (%.17g,%.17g) in #%d, density %.17g, center (%.17g,%.17g)", p.x, p.y, f, rho, c.x, c.y);
        CHECK(fabsl(a - E.area) <= ta, "area", "area %.17g, should be %.17Lg", a, E.area);
        CHECK(fabsl(mass - E.area * rho * depth) <= ta * rho * depth, "mass", "mass %.17g, should be %.17Lg", mass, E.area * rho * depth);
        ld tb = 1e-9L * per + 1000 * eps + 100 * eps * per * per / E.area + dA * per / E.area;
        CHECK(fabsl(b.x - E.x) <= tb && fabsl(b.y - E.y) <= tb, "barycenter", "barycenter (%.17g,%.17g), should be (%.17Lg,%.17Lg)", b.x, b.y, E.x, E.y);
        ld rx = E.x - c.x, ry = E.y - c.y, I = (E.polar + E.area * (rx * rx + ry * ry)) * rho * depth, rr = hypotl(rx, ry) + per;
        ld ti = (1e-9L * E.area * rr * rr + 1000 * eps * rr * (E.area + per * rr) + dA * rr * rr) * rho * depth;
        CHECK(fabsl(in - I) <= ti, "inertia", "moment of inertia %.17g, should be %.17Lg", in, I);
        // nothing outside counts, and a point outside of everything is refused
    }
    g.nontrivial(asked >= 2);
    Vector out = S.faces[0].poly[0] + Vector(3.5, 1.7) * (S.size() * 3);
    bool threw = false;
    try {
        m.computeAreaIntegral(out);
    } catch (std::exception&) {
        threw = true;
    }
    CHECK(threw, "outside", "the area of the body at (%.17g,%.17g), where there is none, was computed", out.x, out.y);
}

PROPERTY(conductors, 6000, 40000, "a drawing of nested and adjacent bodies, any mesh and depth, points in any body: area, mass, barycenter and inertia about any center against the polygon formulas; non-trivial: at least 2 points in bodies") {
    Opts o;
    o.maxFaces = 6;
    o.maxDepth = 3;
    o.minScale = 1e-3, o.maxScale = 1e3;
    auto S = make(g, o);
    ASSUME(S.clearance() > 1e-7);
    auto P = params(g, S, 300);
    double depth = g.coin(0.3) ? 1 : g.logreal(1e-3, 1e3);
    g.note("area %.17g angle %d refine %d depth %.17g%s", P.area, P.angle, P.refine, depth, S.show().c_str());
    CurrentDensityMesh m;
    m.depth = depth;
    S.drawAll(m.drawing);
    for (auto& f : S.faces) m.drawing.drawRegion(f.seed, {1.0});
    if (P.refine) m.drawing.addRefiningPoints();
    m.mesh(P.area, P.angle);
    body(g, m, S, depth);
}

PROPERTY(magnetics, 4000, 20000, "the same for magnetostatic simulations, whose mesh is centred on the origin while points and results are in the coordinates of the drawing; non-trivial: at least 2 points in bodies") {
    Opts o;
    o.maxFaces = 4;
    o.minScale = 1e-2, o.maxScale = 1e2;
    MagOpts mo;
    auto M = makeMag(g, o, mo, 300);
    ASSUME(M.S.clearance() > 1e-6);
    g.note("%s", M.show().c_str());
    MagnetostaticSimulation sim;
    double depth = g.coin() ? 1 : g.logreal(0.1, 10);
    sim.mesh.depth = depth;
    M.draw(sim);
    M.generate(sim);
    body(g, sim.mesh, M.S, depth);
}
