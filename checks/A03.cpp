// the four iterative solvers on symmetric positive definite systems
#include "algebra_common.hpp"

static void run(int which, const MatCSRSymmetric& A, const std::vector<double>& b, std::vector<double>& x, double omega, double tol, uint32_t it) {
    switch (which) {
        case 0: conjugateGradientSolver(A, b, x, tol, it); break;
        case 1: preconditionedJacobiConjugateGradientSolver(A, b, x, tol, it); break;
        case 2: preconditionedSSORConjugateGradientSolver(A, b, x, omega, tol, it); break;
        default: preconditionedIncompleteCholeskyConjugateGradientSolver(A, b, x, tol, it); break;
    }
}
static const char* names[] = {"CG", "Jacobi-CG", "SSOR-CG", "IC-CG"};

PROPERTY(accuracy, 240000, 3000000, "one solver on a random SPD matrix, right-hand side and starting vector (zero, arbitrary, exact, nearly exact), reached residual against the requested one, measured in long double; non-trivial: more than one unknown, b not zero and a coupled matrix") {
    Spd S = genSpd(g, 48);
    uint32_t m = S.m;
    int which = g.draw(3);
    double omega = g.coin(0.3) ? 1.5 : g.real(0.2, 1.8);
    auto D = S.dense();
    std::vector<double> b(m), x(m, 0.0);
    double bs = g.coin(0.6) ? 1.0 : g.logreal(1e-9, 1e9);
    bool zero = g.coin(0.05);
    for (auto& v : b) v = zero ? 0 : g.mixed(100) * bs;
    ref::Vec xs;
    CHECK(ref::solve(D, ref::toL(b), xs), "oracle", "singular");
    int start = g.draw(4);
    for (uint32_t i = 0; i < m; i++) {
        if (start == 1) x[i] = g.mixed(10) * bs / S.scale;
        if (start == 2) x[i] = (double)xs[i];
        if (start == 3) x[i] = (double)xs[i] * (1 + 1e-9 * g.real(-1, 1));
        if (start == 4) x[i] = bs / S.scale;
    }
    auto x0 = x;
    ld bn = ref::norm2(ref::toL(b));
    // the residual the starting vector already has, and the rounding level of the problem
    ld r0 = 0;
    {
        auto y = ref::mul(D, ref::toL(x));
        for (uint32_t i = 0; i < m; i++) y[i] = b[i] - y[i];
        r0 = ref::norm2(y);
    }
    ld xn = std::max(ref::norm2(xs), ref::norm2(ref::toL(x)));
    ld floor_ = 1e-12L * (S.frob() * xn + bn);
    double tol = (double)(std::max(bn, r0) * g.logreal(1e-9, 1e-2));
    if (tol < floor_ * 10) tol = (double)floor_ * 10;
    if (tol == 0) tol = 1e-12;
    g.label(names[which]);
    g.label(S.kind);
    g.nontrivial(m > 1 && bn > 0 && S.kind != "diagonal");
    g.note("%s omega=%g tol=%g start=%d %s b=%s x0=%s", names[which], omega, tol, start, show(S).c_str(), vecs(b).c_str(), vecs(x).c_str());
    auto coo = S.coo(g.coin(0.2));
    MatCSRSymmetric A(coo);
    auto bc = b;
    run(which, A, b, x, omega, tol, 200 * m + 2000);
    CHECK(b == bc, "b-changed", "%s changed the right-hand side", names[which]);
    CHECK(x.size() == m, "size", "%s resized the solution", names[which]);
    for (uint32_t i = 0; i < m; i++)
        for (uint32_t j = 0; j < m; j++) CHECK(A(i, j) == (double)D[i][j], "A-changed", "%s changed the matrix at (%u,%u)", names[which], i, j);
    for (double v : x) CHECK(std::isfinite(v), "nonfinite", "%s returned %g", names[which], v);
    auto y = ref::mul(D, ref::toL(x));
    for (uint32_t i = 0; i < m; i++) y[i] = b[i] - y[i];
    ld res = ref::norm2(y);
    CHECK(res <= tol * 1.01L + floor_, "residual", "%s stopped with a residual of %.9Lg, %.9g was requested (|b|=%Lg)", names[which], res, tol, bn);
    ld err = 0;
    for (uint32_t i = 0; i < m; i++) err += (x[i] - xs[i]) * (x[i] - xs[i]);
    CHECK(sqrtl(err) <= (tol * 1.01L + floor_) / S.lamMin * 1.01L, "error", "%s is %Lg away from the solution", names[which], sqrtl(err));
}

PROPERTY(cap, 120000, 1200000, "a solver stopped by its iteration cap never leaves the solution farther away (in the energy norm) than it was given; non-trivial: cap of at least one on a coupled matrix") {
    Spd S = genSpd(g, 40);
    uint32_t m = S.m;
    int which = g.draw(3);
    auto D = S.dense();
    std::vector<double> b(m), x(m);
    for (auto& v : b) v = g.mixed(100);
    for (auto& v : x) v = g.coin() ? 0 : g.mixed(10);
    uint32_t cap = g.draw(8);
    ref::Vec xs;
    CHECK(ref::solve(D, ref::toL(b), xs), "oracle", "singular");
    auto energy = [&](const std::vector<double>& v) {
        ref::Vec e(m);
        for (uint32_t i = 0; i < m; i++) e[i] = v[i] - xs[i];
        auto y = ref::mul(D, e);
        ld s = 0;
        for (uint32_t i = 0; i < m; i++) s += e[i] * y[i];
        return sqrtl(fabsl(s));
    };
    ld e0 = energy(x);
    g.label(names[which]);
    g.nontrivial(cap >= 1 && S.kind != "diagonal" && m > 1);
    g.note("%s cap=%u %s b=%s x0=%s", names[which], cap, show(S).c_str(), vecs(b).c_str(), vecs(x).c_str());
    auto coo = S.coo();
    MatCSRSymmetric A(coo);
    ld floor_ = 1e-12L * (sqrtl(S.frob()) * (ref::norm2(xs) + ref::norm2(ref::toL(x))));
    run(which, A, b, x, 1.5, 1e-150, cap);
    ld e1 = energy(x);
    CHECK(e1 <= e0 * (1 + 1e-9L) + floor_, "worse", "%s with at most %u iterations went from an energy error of %Lg to %Lg", names[which], cap, e0, e1);
    if (cap == 0) return;
}

PROPERTY(large, 100, 1500, "the same accuracy on sparse matrices of up to 100000 unknowns; non-trivial: more than 1000 unknowns") {
    int which = g.draw(3);
    auto S = genBig(g, which == 3 ? 1500 : 100000);  // the decomposition takes the square of the number of unknowns
    auto b = S.vec(10), x = g.coin() ? std::vector<double>(S.m) : S.vec(5);
    double tol = (double)ref::norm2(ref::toL(b)) * g.logreal(1e-9, 1e-3);
    g.note("%s to %g", names[which], tol);
    g.label(names[which]);
    g.nontrivial(S.m > 1000);
    auto coo = S.coo();
    MatCSRSymmetric A(coo);
    run(which, A, b, x, 1.5, tol, 5000);
    CHECK(x.size() == S.m, "size", "%s resized the solution", names[which]);
    auto y = S.mul(ref::toL(x));
    for (uint32_t i = 0; i < S.m; i++) y[i] = b[i] - y[i];
    ld res = ref::norm2(y);
    CHECK(res <= tol * 1.01L, "residual", "%s stopped with a residual of %.9Lg, %.9g was requested", names[which], res, tol);
}
