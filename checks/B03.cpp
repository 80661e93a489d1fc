// fields against theory: round conductors, coaxial cables, magnetised cylinders; Ampère's law and flux conservation
#include "magref.hpp"
using namespace nikfemm;
using namespace scene;

static MagScene circles(pbt::Gen& g, std::vector<double> r, std::vector<MagnetostaticProp> p, Vector c, int sides, int tri) {
    MagScene M;
    for (size_t i = 0; i < r.size(); i++) {
        Face f;
        f.kind = CIRCLE, f.c = c, f.r = r[i], f.n = sides;
        f.parent = (int)i - 1, f.depth = i;
        double st = 2 * PI / sides, ang = 0;
        for (int k = 0; k < sides; k++) ang += st, f.poly.push_back({c.x + r[i] * cos(ang), c.y + r[i] * sin(ang)});
        double in = i + 1 < r.size() ? r[i + 1] : 0, rs = in + (r[i] * cos(M_PI / sides) - in) * 0.5, a = g.real(0, 2 * M_PI);
        f.seed = {c.x + rs * cos(a), c.y + rs * sin(a)};
        f.area = fabsl(shoelace(f.poly));
        if (i) M.S.faces[i - 1].children.push_back(i);
        M.S.faces.push_back(f);
    }
    M.prop = p;
    for (size_t i = 0; i < r.size(); i++) M.S.order.push_back(i);
    g.shuffle(M.S.order);
    M.area = r[0] * r[0] * 7 / tri;
    M.angle = 33 - g.draw(13);
    M.refine = false;
    return M;
}
struct Err {
    double rel, scale;  // root of the mean square deviation over that of the theory; best factor on the theory
};
// compares the flux density with theory on the elements inside of the circle and away from the radii given; relative to the mean square
template <class F>
static Err compare(MagnetostaticSimulation& sim, const std::vector<Vector>& B, Vector c, const std::vector<double>& radii, double upto, double gap, F theory) {
    auto& d = sim.mesh.data;
    double e = 0, m = 0, w = 0;
    for (int i = 0; i < d.numberoftriangles; i++) {
        bool in = true;
        for (int k = 0; k < 3; k++) {
            Vector p = d.pointlist[d.trianglelist[i].verts[k]];
            in &= hypot(p.x, p.y) <= sim.mesh.radius * (1 + 1e-9);
        }
        Vector p = centroid(d, i) + sim.mesh.center - c;
        double r = hypot(p.x, p.y);
        if (!in || r > upto) continue;
        bool near = false;
        for (double q : radii) near |= fabs(r - q) < gap * radii[0];
        if (near) continue;
        Vector t = theory(p);
        double a = fabsl(triArea(d, i)), x = (B[i].x - t.x) * (B[i].x - t.x) + (B[i].y - t.y) * (B[i].y - t.y), y = t.x * t.x + t.y * t.y;
        e += a * x, m += a * y, w += a * (B[i].x * t.x + B[i].y * t.y);
    }
    return {sqrt(e / m), w / m};
}
static void report(const char* n, double x) {
    if (getenv("B03_ERR")) {
        FILE* f = fopen(getenv("B03_ERR"), "a");
        fprintf(f, "%s %g\n", n, x);
        fclose(f);
    }
}

PROPERTY(wire, 800, 8000, "a round conductor with any current density, permeability, size and place, alone or with a coaxial return around it: mean square deviation of the flux density from Ampère's law inside and around; non-trivial: coaxial") {
    double sc = g.coin(0.3) ? 1 : g.logreal(1e-3, 1e3), J = (g.coin() ? 1 : -1) * g.logreal(0.1, 10) / (MU0 * sc);
    Vector c = g.coin(0.3) ? Vector(0, 0) : Vector(g.real(-1, 1), g.real(-1, 1)) * (10 * sc);
    int sides = 24 + g.draw(24), kind = g.draw(2);
    double mu = MU0 * (g.coin() ? 1 : g.logreal(1, 1e3));
    std::vector<double> r;
    std::vector<MagnetostaticProp> p;
    double r1 = sc;
    if (kind == 0) {
        r = {r1};
        p = {{J, {0, 0}, mu, {}}};
        g.label("single");
    } else {
        // core, insulation, return
        double r2 = r1 * g.real(1.4, 2), r3 = r2 * g.real(1.2, 1.6);
        r = {r3, r2, r1};
        double back = kind == 1 ? -J * r1 * r1 / (r3 * r3 - r2 * r2) : J * g.real(-1, 1);
        p = {{back, {0, 0}, MU0, {}}, {0, {0, 0}, MU0, {}}, {J, {0, 0}, mu, {}}};
        g.label(kind == 1 ? "coaxial with return" : "coaxial");
        g.nontrivial(true);
    }
    auto M = circles(g, r, p, c, sides, 1500);
    g.note("%s", M.show().c_str());
    MagnetostaticSimulation sim;
    M.draw(sim);
    auto sys = M.generate(sim);
    auto A = sim.solve(sys);
    auto B = sim.mesh.computeCurl(A);
    double fill = sides * sin(2 * M_PI / sides) / (2 * M_PI);  // area of the polygon
    auto theory = [&](Vector q) {
        double R = hypot(q.x, q.y), I = 0;
        // current within R
        for (size_t i = 0; i < r.size(); i++) {
            double out = std::min(R, r[i]), in = i + 1 < r.size() ? std::min(R, r[i + 1]) : 0;
            I += p[i].J * M_PI * (out * out - in * in) * fill;
        }
        double m = MU0;
        for (size_t i = 0; i < r.size(); i++)
            if (R < r[i]) m = p[i].mu;
        double b = m * I / (2 * M_PI * R);
        return Vector(-q.y / R * b, q.x / R * b);
    };
    Err e = compare(sim, B, c, r, r[0] * 1.4, 0.03, theory);
    report("wire", e.rel), report("wire-scale", e.scale);
    CHECK(e.rel < 0.1, "wire", "the flux density deviates from theory by %.3g", e.rel);
    CHECK(fabs(e.scale - 1) < 0.035, "size", "the flux density is %.5g of what theory gives", e.scale);
}

PROPERTY(cylinder, 800, 8000, "a cylinder of any size, place, magnetisation and direction (also with a hole, or another magnet in it): the flux density inside and around is the one of theory; non-trivial: with a hole or another magnet") {
    double sc = g.coin(0.3) ? 1 : g.logreal(1e-3, 1e3);
    Vector c = g.coin(0.3) ? Vector(0, 0) : Vector(g.real(-1, 1), g.real(-1, 1)) * (10 * sc);
    int sides = 24 + g.draw(24), kind = g.draw(2);
    auto mag = [&] {
        double a = g.real(0, 2 * M_PI), m = g.logreal(0.1, 10) / MU0;
        return Vector(m * cos(a), m * sin(a));
    };
    std::vector<double> r{sc};
    std::vector<MagnetostaticProp> p{{0, mag(), MU0, {}}};
    if (kind) {
        r.push_back(sc * g.real(0.4, 0.7));
        p.push_back({0, kind == 1 ? Vector(0, 0) : mag(), MU0, {}});
        g.nontrivial(true);
        g.label(kind == 1 ? "with a hole" : "with another magnet inside");
    }
    auto M = circles(g, r, p, c, sides, 2500);
    g.note("%s", M.show().c_str());
    MagnetostaticSimulation sim;
    M.draw(sim);
    auto sys = M.generate(sim);
    auto A = sim.solve(sys);
    auto B = sim.mesh.computeCurl(A);
    double fill = sides * sin(2 * M_PI / sides) / (2 * M_PI);
    // every cylinder of magnetisation M gives mu0 M / 2 inside and a dipole outside; the inner one replaces what the outer one has there
    auto theory = [&](Vector q) {
        double R2 = q.x * q.x + q.y * q.y;
        Vector b(0, 0);
        for (size_t i = 0; i < r.size(); i++) {
            Vector m = i ? p[i].M - p[i - 1].M : p[i].M;
            if (R2 < r[i] * r[i]) b += m * (MU0 / 2);
            else {
                double dot = (m.x * q.x + m.y * q.y) / R2, f = MU0 / 2 * r[i] * r[i] * fill / R2;
                b += (q * (2 * dot) - m) * f;
            }
        }
        return b;
    };
    Err e = compare(sim, B, c, r, r[0] * 1.4, 0.05, theory);
    report("cylinder", e.rel), report("cylinder-scale", e.scale);
    CHECK(e.rel < 0.08, "cylinder", "the flux density deviates from theory by %.3g", e.rel);
    CHECK(fabs(e.scale - 1) < 0.035, "size", "the flux density is %.5g of what theory gives", e.scale);
}

PROPERTY(permeable, 500, 5000, "a permeable cylinder around a magnetised or current-carrying core: the field is that of the boundary value problem of two shells; non-trivial: always") {
    double sc = g.coin(0.3) ? 1 : g.logreal(1e-2, 1e2);
    Vector c = g.coin(0.3) ? Vector(0, 0) : Vector(g.real(-1, 1), g.real(-1, 1)) * (10 * sc);
    int sides = 32 + g.draw(16);
    double mr = g.logreal(1, 50), r1 = sc * g.real(0.4, 0.7), m = (g.coin() ? 1 : -1) * g.logreal(0.1, 10), an = g.real(0, 2 * M_PI);
    // magnetised core along an, shell of relative permeability mr, air
    std::vector<double> r{sc, r1};
    std::vector<MagnetostaticProp> p{{0, {0, 0}, MU0 * mr, {}}, {0, {m / MU0 * cos(an), m / MU0 * sin(an)}, MU0, {}}};
    auto M = circles(g, r, p, c, sides, 2500);
    g.note("%s", M.show().c_str());
    g.nontrivial(true);
    MagnetostaticSimulation sim;
    M.draw(sim);
    auto sys = M.generate(sim);
    auto A = sim.solve(sys);
    auto B = sim.mesh.computeCurl(A);
    // A = (a1 r) in the core, (a2 r + b2/r) in the shell, b3/r outside, times sin of the angle to the magnetisation
    // continuity of A, and of H = A'/mu with the jump m (in the core A'/mu0 - M)
    double R1 = r1, R2 = sc;
    std::vector<std::vector<ld>> K{{R1, -R1, -1 / R1, 0}, {0, R2, 1 / R2, -1 / R2}, {1, -1 / mr, 1 / (mr * R1 * R1), 0}, {0, 1 / mr, -1 / (mr * R2 * R2), 1 / (R2 * R2)}};
    ref::Vec x;
    ASSUME(ref::solve(K, {0, 0, m, 0}, x));
    auto theory = [&](Vector q) {
        Vector u = q.rotate(-an);
        double R = hypot(u.x, u.y), a, b;
        if (R < R1) a = x[0], b = 0;
        else if (R < R2) a = x[1], b = x[2];
        else a = 0, b = x[3];
        // A = a y + b y / r^2
        double Ay = a + b * (1 / (R * R) - 2 * u.y * u.y / (R * R * R * R)), Ax = -2 * b * u.x * u.y / (R * R * R * R);
        return Vector(Ay, -Ax).rotate(an);
    };
    Err e = compare(sim, B, c, r, r[0] * 1.4, 0.05, theory);
    report("permeable", e.rel), report("permeable-scale", e.scale);
    CHECK(e.rel < 0.085, "permeable", "the flux density deviates from theory by %.3g", e.rel);
    CHECK(fabs(e.scale - 1) < 0.035, "size", "the flux density is %.5g of what theory gives", e.scale);
}

PROPERTY(ampere, 2500, 25000, "any drawing of currents, magnets and permeable bodies: the circulation of the field around every outermost body (with all that is in it) is the current in it, and around everything; the flux through closed curves vanishes by continuity of the potential; non-trivial: a magnet or permeable body with current") {
    Opts o;
    o.maxFaces = 5;
    o.grids = false;
    o.minScale = 1e-2, o.maxScale = 1e2;
    MagOpts mo;
    mo.maxMu = 1e3;
    auto M = makeMag(g, o, mo, g.coin(0.2) ? 2000 : 300);
    ASSUME(M.S.clearance() > 1e-5);
    M.angle = 20 + g.draw(13);
    g.note("%s", M.show().c_str());
    MagnetostaticSimulation sim;
    M.draw(sim);
    auto sys = M.generate(sim);
    auto A = sim.solve(sys);
    auto B = sim.mesh.computeCurl(A);
    auto& d = sim.mesh.data;
    // the hat of a body: one on its vertices, zero on the others; the circulation is averaged over the elements where it falls
    for (size_t f = 0; f < M.S.faces.size(); f++) {
        auto& F = M.S.faces[f];
        if (F.parent >= 0) continue;
        std::vector<char> in(d.numberofpoints);
        for (int i = 0; i < d.numberofpoints; i++) {
            Vector p = d.pointlist[i] + sim.mesh.center;
            in[i] = hypot(d.pointlist[i].x, d.pointlist[i].y) < sim.mesh.radius * 0.99 && (polyDist(p, F.poly) < 1e-9 * M.S.size() || inside(p, F.poly));
        }
        ld circ = 0, size = 0;
        bool touches = false;
        for (int i = 0; i < d.numberoftriangles; i++) {
            auto& t = d.trianglelist[i].verts;
            int k = in[t[0]] + in[t[1]] + in[t[2]];
            if (k == 0 || k == 3) continue;
            auto P = propOf(M, sim, i);
            if (P.J != 0 || P.M.x != 0 || P.M.y != 0) touches = true;
            Vector p = d.pointlist[t[0]], q = d.pointlist[t[1]], s = d.pointlist[t[2]];
            ld D = cross(p, q, s), u = (int)in[t[1]] - in[t[0]], v = (int)in[t[2]] - in[t[0]];
            ld gx = (u * ((ld)s.y - p.y) - v * ((ld)q.y - p.y)) / D, gy = (v * ((ld)q.x - p.x) - u * ((ld)s.x - p.x)) / D;
            // H . curl(hat)
            ld h = (B[i].x * gy - B[i].y * gx) / P.mu * fabsl(D) / 2;
            circ += h, size += fabsl(h);
        }
        if (touches) continue;
        ld I = 0, mag = 0;
        for (size_t k = 0; k < M.S.faces.size(); k++) {
            int a = k;
            while (M.S.faces[a].parent >= 0) a = M.S.faces[a].parent;
            if (a != (int)f) continue;
            I += (ld)M.prop[k].J * M.S.own(k), mag += fabsl(M.prop[k].J) * M.S.faces[k].area;
            g.nontrivial(M.prop[k].J != 0 && (M.prop[k].mu != MU0 || M.prop[k].M.x != 0));
        }
        CHECK(fabsl(circ - I) <= 1e-6L * (mag + size) + 1e-3L, "ampere", "the circulation around #%zu is %.17Lg, the current in it %.17Lg", f, circ, I);
    }
    // flux through the border of any set of elements inside: sum over edges of the jump of the normal component
    auto e = edgesOf(d);
    for (auto& [k, v] : e) {
        if (v.size() != 2) continue;
        Vector p = d.pointlist[k.first], q = d.pointlist[k.second];
        ld tx = (ld)q.x - p.x, ty = (ld)q.y - p.y;
        ld f1 = B[v[0]].x * ty - B[v[0]].y * tx, f2 = B[v[1]].x * ty - B[v[1]].y * tx, want = (ld)A[k.second] - A[k.first];
        auto tol = [&](int i) {
            auto& t = d.trianglelist[i].verts;
            ld L = 0, m = 0;
            for (int j = 0; j < 3; j++) L = std::max(L, (ld)Vector::distance(d.pointlist[t[j]], d.pointlist[t[(j + 1) % 3]])), m = std::max(m, fabsl(A[t[j]]));
            return 1e-12L * m * L * L / fabsl(triArea(d, i));
        };
        CHECK(fabsl(f1 - want) <= tol(v[0]) && fabsl(f2 - want) <= tol(v[1]), "flux", "the flux through the edge (%.17g,%.17g)-(%.17g,%.17g) is %.17Lg on one side, %.17Lg on the other and %.17Lg by the potential", p.x, p.y, q.x, q.y, f1, f2, want);
    }
}
