// forces and torques against theory: uniform fields, fields of line currents and dipoles, computed fields of round bodies
#include "magref.hpp"
#include <complex>
using namespace nikfemm;
using namespace scene;

static const double tolF = 0.015, tolT = 0.05, tolSF = 0.07, tolST = 0.25;
static void report(const char* n, double x) {
    if (getenv("B06_ERR")) {
        FILE* f = fopen(getenv("B06_ERR"), "a");
        fprintf(f, "%s %g\n", n, x);
        fclose(f);
    }
}
static std::vector<Vector> sample(MagnetostaticSimulation& sim, std::function<Vector(Vector)> f) {
    std::vector<Vector> B;
    for (int i = 0; i < sim.mesh.data.numberoftriangles; i++) B.push_back(f(centroid(sim.mesh.data, i) + sim.mesh.center));
    return B;
}
static Scene bodies(pbt::Gen& g, int faces) {
    Opts o;
    o.maxFaces = faces;
    o.maxDepth = 3;
    o.grids = false;
    o.minScale = 1e-2, o.maxScale = 1e2;
    return make(g, o);
}
static MagScene plain(pbt::Gen& g, int faces, int tri) {
    MagScene M;
    M.S = bodies(g, faces);
    double sz = M.S.size();
    // the properties do not matter for the integrals
    for (size_t i = 0; i < M.S.faces.size(); i++) M.prop.push_back({(double)i, {0, 0}, MU0, {}});
    M.area = sz * sz * 3 / g.logreal(tri / 4, tri);
    M.angle = 33 - g.draw(13);
    return M;
}

PROPERTY(uniform, 400, 4000, "a field that is the same everywhere, around any body of any drawing: no force and no torque about any center; non-trivial: a drawing of several bodies") {
    auto M = plain(g, 5, 1200);
    ASSUME(M.S.clearance() > 1e-3 * M.S.size());
    MagnetostaticSimulation sim;
    double depth = g.coin() ? 1 : g.logreal(1e-2, 1e2);
    if (depth != 1) sim.depth = depth;  // one unless told otherwise
    M.draw(sim);
    M.generate(sim);
    double a = g.real(0, 2 * M_PI), b = g.logreal(1e-2, 10), size = M.S.size();
    Vector b0(b * cos(a), b * sin(a));
    int f = g.draw(M.S.faces.size() - 1);
    Vector p = M.S.faces[f].seed, c = sim.mesh.center + Vector(g.real(-2, 2), g.real(-2, 2)) * size;
    g.note("%s\n B (%.17g,%.17g) body #%d center (%.17g,%.17g) depth %g", M.show().c_str(), b0.x, b0.y, f, c.x, c.y, depth);
    g.nontrivial(M.S.faces.size() > 1);
    auto B = sample(sim, [&](Vector) { return b0; });
    Vector F = sim.computeForceIntegrals(B, p);
    double T = sim.computeTorqueIntegral(B, p, c);
    double unit = b * b / MU0 * size * depth;
    report("uniform-F", F.norm() / unit), report("uniform-T", fabs(T) / unit / size);
    CHECK(F.norm() < 1e-11 * unit, "force", "(%g,%g) in a uniform field; the scale of the field is %g", F.x, F.y, unit);
    CHECK(fabs(T) < 1e-11 * unit * size, "torque", "%g in a uniform field; the scale of the field is %g", T, unit * size);
}

// bodies at some distance of each other, some of them inside of a frame or of a shell
struct Assembly : MagScene {
    std::vector<Vector> at;   // middle of the bodies without others inside
    std::vector<int> leaf;    // their faces
    bool within(int f, int a) const {
        while (f >= 0 && f != a) f = S.faces[f].parent;
        return f == a;
    }
};
static Face shape(pbt::Gen& g, Vector c, double r, int kind, int parent) {
    Face f;
    f.parent = parent;
    f.c = c, f.r = r;
    double ang = 0;
    if (kind == 0) {
        f.kind = CIRCLE, f.n = 16 + g.draw(16);
        for (int k = 0; k < f.n; k++) ang += 2 * PI / f.n, f.poly.push_back({c.x + r * cos(ang), c.y + r * sin(ang)});
    } else if (kind == 1) {
        f.kind = RECT;
        double a = g.real(0.5, 1.07), w = r * cos(a), h = r * sin(a);
        f.poly = {{c.x - w, c.y - h}, {c.x + w, c.y - h}, {c.x + w, c.y + h}, {c.x - w, c.y + h}};
        if (g.coin()) f.kind = POLYGON;
    } else {
        f.kind = POLYGON;
        int n = 3 + g.draw(6);
        double a0 = g.real(0, 2 * M_PI);
        for (int k = 0; k < n; k++) {
            double t = a0 + 2 * M_PI * (k + g.real(-.2, .2)) / n, q = r * g.real(0.75, 1);
            f.poly.push_back({c.x + q * cos(t), c.y + q * sin(t)});
        }
    }
    f.area = fabsl(shoelace(f.poly));
    return f;
}
static Assembly assembly(pbt::Gen& g, bool round, int tri) {
    Assembly A;
    double sc = g.coin(0.3) ? 1 : g.logreal(1e-2, 1e2), turn = g.real(0, 2 * M_PI);
    int nx = 1 + g.draw(2), ny = 1 + g.draw(2);
    Vector o = g.coin(0.3) ? Vector(0, 0) : Vector(g.real(-1, 1), g.real(-1, 1)) * (10 * sc);
    double R = hypot(nx, ny) * sc * 0.5 + 0.1 * sc;
    int frame = -1;
    auto add = [&](Face f) {
        f.depth = f.parent < 0 ? 0 : A.S.faces[f.parent].depth + 1;
        if (f.parent >= 0) A.S.faces[f.parent].children.push_back(A.S.faces.size());
        A.S.faces.push_back(f);
        return (int)A.S.faces.size() - 1;
    };
    if (g.coin()) {
        Face f = g.coin() ? shape(g, o, R, 0, -1) : Face();
        if (f.poly.empty()) {
            f.kind = POLYGON, f.parent = -1, f.c = o;
            double a = g.real(0, 2 * M_PI);
            int n = 4 + g.draw(4);
            for (int k = 0; k < n; k++) f.poly.push_back(o + Vector(cos(a + 2 * M_PI * k / n), sin(a + 2 * M_PI * k / n)) * (1.5 * R));
        }
        f.area = fabsl(shoelace(f.poly));
        frame = add(f);
        A.S.faces[frame].seed = o + Vector(cos(turn), sin(turn)) * (R * 0.95);
        g.label("frame");
    }
    for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++) {
            if (nx * ny > 1 && g.coin(0.15)) continue;
            Vector q((i - (nx - 1) * 0.5 + g.real(-.05, .05)) * sc, (j - (ny - 1) * 0.5 + g.real(-.05, .05)) * sc);
            Vector c = o + Vector(q.x * cos(turn) - q.y * sin(turn), q.x * sin(turn) + q.y * cos(turn));
            double r = sc * g.real(0.2, 0.38);
            int in = frame;
            if (g.coin(0.3)) {
                int s = add(shape(g, c, r, g.draw(2) == 0 ? 0 : 0, frame));
                double a = g.real(0, 2 * M_PI);
                A.S.faces[s].seed = c + Vector(cos(a), sin(a)) * (0.85 * r * cos(M_PI / 16));
                r *= g.real(0.45, 0.7), in = s;
                g.label("shell");
            }
            int f = add(shape(g, c, r, round ? 0 : g.draw(2), in));
            auto& F = A.S.faces[f];
            double a = g.real(0, 2 * M_PI);
            F.seed = c + Vector(cos(a), sin(a)) * (0.5 * polyDist(c, F.poly));
            A.leaf.push_back(f), A.at.push_back(c);
        }
    for (size_t i = 0; i < A.S.faces.size(); i++) A.S.order.push_back(i), A.prop.push_back({0, {0, 0}, MU0, {}});
    g.shuffle(A.S.order);
    A.area = 7 * R * R / g.real(tri / 2, tri);
    A.angle = 33 - g.draw(13);
    A.refine = false;
    return A;
}
// the plane field of lines of current and of dipoles, with complex numbers: Bx - i By
typedef std::complex<double> cx;
struct Source {
    cx z;
    double I;
    cx m;
};
static cx fieldOf(const Source& s, cx z) {
    cx d = z - s.z;
    return MU0 / (2 * M_PI) * (cx(0, -s.I) / d + s.m / (d * d));
}
static cx slopeOf(const Source& s, cx z) {
    cx d = z - s.z;
    return MU0 / (2 * M_PI) * (cx(0, s.I) / (d * d) - 2. * s.m / (d * d * d));
}
struct Load {
    Vector F;
    double T;
};
// force and torque about c on the sources for which on() holds by those for which it does not
template <class On>
static Load theory(const std::vector<Source>& s, On on, Vector c) {
    Load L{{0, 0}, 0};
    for (size_t i = 0; i < s.size(); i++)
        for (size_t k = 0; k < s.size(); k++) {
            if (!on(i) || on(k)) continue;
            cx b = fieldOf(s[k], s[i].z), f = cx(0, -s[i].I) * b + s[i].m * slopeOf(s[k], s[i].z);
            Vector F(f.real(), -f.imag());
            L.F += F;
            L.T += (Vector(s[i].z.real(), s[i].z.imag()) - c) ^ F;
            L.T += -(s[i].m * b).imag();
        }
    return L;
}

PROPERTY(lines, 300, 6000, "the exact field of line currents and dipoles in the bodies of any assembly, sampled on the mesh: force and torque on any body, about any center, are those on its sources; for any field depth is a factor, the stress integral is both, and any point of the body gives the same; non-trivial: a force from other bodies") {
    auto A = assembly(g, false, 4000);
    ASSUME(!A.leaf.empty());
    MagnetostaticSimulation sim;
    A.draw(sim);
    double depth = g.coin() ? 1 : g.logreal(1e-2, 1e2), R = 0;
    if (depth != 1) sim.depth = depth;  // one unless told otherwise
    A.generate(sim);
    std::vector<Source> src;
    double amp = g.logreal(0.1, 10), total = 0;
    for (size_t k = 0; k < A.leaf.size(); k++) {
        double r = polyDist(A.at[k], A.S.faces[A.leaf[k]].poly);
        R = std::max(R, r);
        Source s{{A.at[k].x, A.at[k].y}, 0, 0};
        if (g.coin(0.8)) s.I = (g.coin() ? 1 : -1) * amp * g.real(0.3, 1);
        if (g.coin(0.4)) {
            double a = g.real(0, 2 * M_PI);
            s.m = std::polar(amp * r * g.real(0.2, 0.5), a);
        }
        if (s.m == 0. && s.I == 0) s.I = amp;
        total += fabs(s.I) + std::abs(s.m) / r;
        src.push_back(s);
    }
    std::vector<Vector> B = sample(sim, [&](Vector q) {
        cx b = 0;
        for (auto& s : src)
            if (std::abs(cx(q.x, q.y) - s.z) > 1e-9 * R) b += fieldOf(s, {q.x, q.y});
        return Vector(b.real(), -b.imag());
    });
    int f = g.draw(A.S.faces.size() - 1);
    Vector p = A.S.faces[f].seed, c = A.at[0] + Vector(g.real(-1, 1), g.real(-1, 1)) * (4 * R);
    auto L = theory(src, [&](size_t i) { return A.within(A.leaf[i], f); }, c);
    g.note("%s\n body #%d center (%.17g,%.17g) depth %g", A.show().c_str(), f, c.x, c.y, depth);
    for (auto& s : src) g.note(" at (%.17g,%.17g) current %g moment (%g,%g)", s.z.real(), s.z.imag(), s.I, s.m.real(), s.m.imag());
    Vector F = sim.computeForceIntegrals(B, p) / depth;
    double T = sim.computeTorqueIntegral(B, p, c) / depth, unit = MU0 * total * total / (2 * M_PI * R);
    bool any = L.F.norm() > 1e-3 * unit;
    g.nontrivial(any);
    double eF = (F - L.F).norm() / unit, eT = fabs(T - L.T) / unit / R;
    report("lines-F", eF), report("lines-T", eT), report("lines-W", L.F.norm() / unit);
    CHECK(eF < tolF, "force", "(%g,%g) instead of (%g,%g); the sources %g", F.x, F.y, L.F.x, L.F.y, unit);
    CHECK(eT < tolT, "torque", "%g instead of %g; the sources %g", T, L.T, unit * R);
    sim.depth = g.logreal(1e-2, 1e2);
    auto st = sim.computeStressIntegral(B, p, c);
    Vector G = st.Force / sim.depth;
    double rl = 1e-12 * unit;
    CHECK((G - F).norm() <= rl, "depth", "force per length (%.17g,%.17g) with depth %g, (%.17g,%.17g) with %g", F.x, F.y, depth, G.x, G.y, sim.depth);
    CHECK(fabs(st.Torque / sim.depth - T) <= rl * R, "depth torque", "torque per length %.17g with depth %g, %.17g with %g", T, depth, st.Torque / sim.depth, sim.depth);
    // another point of the same face
    for (int k = 0; k < 20; k++) {
        auto& P = A.S.faces[f];
        Vector q = p + Vector(g.real(-1, 1), g.real(-1, 1)) * (R * 2);
        if (A.S.faceOf(q) != f || A.S.edgeDist(q) < 1e-3 * R) continue;
        Vector H = sim.computeForceIntegrals(B, q) / sim.depth;
        CHECK((H - F).norm() <= rl, "point", "force (%.17g,%.17g) asked with (%g,%g), (%.17g,%.17g) with (%g,%g)", F.x, F.y, p.x, p.y, H.x, H.y, q.x, q.y);
        break;
    }
}

PROPERTY(solved, 150, 2500, "the computed field of round conductors and magnets in any assembly: force and torque on any of them are those of theory; non-trivial: a force from other bodies") {
    auto A = assembly(g, true, 6000);
    ASSUME(!A.leaf.empty());
    double amp = g.logreal(0.1, 10), total = 0, R = 0, Rmin = 1e300;
    std::vector<Source> src;
    for (size_t k = 0; k < A.leaf.size(); k++) {
        auto& F = A.S.faces[A.leaf[k]];
        R = std::max(R, F.r), Rmin = std::min(Rmin, F.r);
        auto& P = A.prop[A.leaf[k]];
        Source s{{A.at[k].x, A.at[k].y}, 0, 0};
        double area = F.area;
        int kind = g.draw(3);
        if (kind != 1) s.I = (g.coin() ? 1 : -1) * amp * g.real(0.3, 1), P.J = s.I / area;
        if (kind & 1) {
            double a = g.real(0, 2 * M_PI), m = amp * F.r * g.real(0.3, 1);
            s.m = std::polar(m, a), P.M = Vector(cos(a), sin(a)) * (m / area);
        }
        total += fabs(s.I) + std::abs(s.m) / F.r;
        src.push_back(s);
    }
    g.note("%s", A.show().c_str());
    MagnetostaticSimulation sim;
    A.draw(sim);
    auto sys = A.generate(sim);
    auto X = sim.solve(sys);
    std::vector<Vector> B(sim.mesh.data.numberoftriangles);
    B = sim.mesh.computeCurl(X);
    Vector c = A.at[0] + Vector(g.real(-1, 1), g.real(-1, 1)) * (4 * R);
    double unit = MU0 * total * total / (2 * M_PI * R), big = 0;
    for (size_t f = 0; f < A.S.faces.size(); f++) {
        Vector p = A.S.faces[f].seed;
        auto L = theory(src, [&](size_t i) { return A.within(A.leaf[i], f); }, c);
        auto S = sim.computeStressIntegral(B, p, c);
        double eF = (S.Force - L.F).norm() / unit, eT = fabs(S.Torque - L.T) / unit / R;
        big = std::max(big, L.F.norm() / unit);
        report("solved-F", eF), report("solved-T", eT), report("solved-W", L.F.norm() / unit);
        CHECK(eF < tolSF, "force", "(%g,%g) instead of (%g,%g) on body #%zu; the sources %g", S.Force.x, S.Force.y, L.F.x, L.F.y, f, unit);
        CHECK(eT < tolST, "torque", "%g instead of %g on body #%zu; the sources %g", S.Torque, L.T, f, unit * R);
    }
    g.nontrivial(big > 1e-2);
}
