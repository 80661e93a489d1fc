// preconditioners against their defining formulas
#include "algebra_common.hpp"

PROPERTY(ssor, 240000, 3000000, "the SSOR preconditioner applied to a vector against w(2-w) (D+wU)^-1 D (D+wL)^-1 v in long double; non-trivial: coupled matrix of at least three rows") {
    Spd S = genSpd(g, 40);
    uint32_t m = S.m;
    double w = g.coin(0.3) ? 1.5 : g.coin(0.2) ? 1.0 : g.real(0.05, 1.95);
    std::vector<double> v(m), r(m, 3e33);
    for (auto& x : v) x = g.mixed(1000);
    g.nontrivial(m >= 3 && S.kind != "diagonal");
    g.label(S.kind);
    g.note("w=%.17g %s v=%s", w, show(S).c_str(), vecs(v).c_str());
    auto coo = S.coo();
    MatCSRSymmetric A(coo);
    auto v0 = v;
    multSSORPreconditioner(A, r, v, w);
    CHECK(v == v0, "operand", "the preconditioner changed its operand");
    auto D = S.dense();
    // solve (D + wL) y = w(2-w) v, then (D + wU) x = D y
    ref::Vec y(m), x(m);
    ld mag = 0;
    for (uint32_t i = 0; i < m; i++) {
        ld s = (ld)w * (2 - (ld)w) * v[i];
        for (uint32_t j = 0; j < i; j++) s -= w * D[i][j] * y[j];
        y[i] = s / D[i][i];
    }
    for (uint32_t i = m; i-- > 0;) {
        ld s = D[i][i] * y[i];
        for (uint32_t j = i + 1; j < m; j++) s -= w * D[i][j] * x[j];
        x[i] = s / D[i][i];
    }
    for (uint32_t i = 0; i < m; i++) mag = std::max({mag, fabsl(x[i]), fabsl(y[i])});
    for (uint32_t i = 0; i < m; i++) CHECK(near(r[i], x[i], mag, 1e-10L), "ssor", "element %u is %.17g, should be %.17Lg", i, r[i], x[i]);
}

PROPERTY(cholesky, 160000, 1600000, "the incomplete Cholesky preconditioner on block matrices of full blocks, where it is exact, against the inverse, and on arbitrary SPD matrices, where it must keep the sparsity pattern and a positive diagonal; non-trivial: a block of at least two rows") {
    bool blocks = g.coin(0.7);
    Spd S;
    int big = 1;
    if (blocks) {
        int n = 1 + g.size(0, 17);
        S.m = n;
        std::vector<int> block(n);
        int nb = 1 + g.draw(3);
        std::map<int, int> count;
        for (auto& b : block) b = g.draw(nb - 1), big = std::max(big, ++count[b]);
        for (int i = 0; i < n; i++) S.e[{i, i}] += 1;
        for (int i = 0; i < n; i++)
            for (int j = i + 1; j < n; j++)
                if (block[i] == block[j]) {
                    double w = g.real(0.1, 4) * (g.coin() ? 1 : -1);
                    S.e[{i, j}] += w, S.e[{i, i}] += fabs(w), S.e[{j, j}] += fabs(w);
                }
        S.kind = "blocks";
        double sc = g.logreal(1e-3, 1e3);
        for (auto& [k, v] : S.e) v *= sc;
        S.scale = sc;
    } else
        S = genSpd(g, 24);
    uint32_t m = S.m;
    g.nontrivial(blocks ? big >= 2 : m >= 2 && S.kind != "diagonal");
    g.label(S.kind);
    g.note("%s", show(S).c_str());
    auto coo = S.coo();
    MatCSRSymmetric A(coo);
    MatCSRLowerTri L = incompleteCholeskyDecomposition(A);
    auto D = S.dense();
    CHECK(L.m == m, "size", "%u rows instead of %u", L.m, m);
    for (uint32_t i = 0; i < m; i++) {
        CHECK(std::isfinite(L(i, i)) && L(i, i) > 0, "diag", "diagonal element %u is %g", i, L(i, i));
        for (uint32_t j = 0; j < m; j++) {
            CHECK(A(i, j) == (double)D[i][j], "A-changed", "the decomposition changed A");
            CHECK(std::isfinite(L(i, j)), "finite", "element (%u,%u) is %g", i, j, L(i, j));
            if (D[i][j] == 0) CHECK(L(i, j) == 0, "pattern", "element (%u,%u) is outside of the pattern", i, j);
        }
    }
    std::vector<double> v(m), t(m), z(m);
    for (auto& x : v) x = g.mixed(100);
    mult(t, (MatCSRLowerTri)L, v);
    mult(z, (MatCSRUpperTri)L, t);
    if (blocks) {
        ref::Vec xs;
        CHECK(ref::solve(D, ref::toL(v), xs), "oracle", "singular");
        ld mag = 0;
        for (auto x : xs) mag = std::max(mag, fabsl(x));
        for (uint32_t i = 0; i < m; i++) CHECK(near(z[i], xs[i], mag, 1e-9L), "inverse", "element %u of A^-1 v is %.17g, should be %.17Lg", i, z[i], xs[i]);
    } else {
        ld q = 0;
        bool any = false;
        for (uint32_t i = 0; i < m; i++) q += (ld)v[i] * z[i], any |= v[i] != 0;
        CHECK(!any || q > 0, "positive", "the preconditioner is not positive definite: v'Mv = %Lg", q);
    }
}

PROPERTY(large, 100, 1500, "the SSOR preconditioner on sparse matrices of up to 100000 rows; non-trivial: more than 1000 rows") {
    auto S = genBig(g);
    uint32_t m = S.m;
    g.nontrivial(m > 1000);
    auto v = S.vec(100);
    ref::Vec y(m), x(m);
    ld mag = 0;
    double w = g.real(0.1, 1.9);
    g.note("w=%.17g", w);
    auto coo = S.coo();
    MatCSRSymmetric A(coo);
    std::vector<double> r(m, 3e33);
    multSSORPreconditioner(A, r, v, w);
    for (uint32_t i = 0; i < m; i++) {
        ld s = (ld)w * (2 - (ld)w) * v[i];
        for (auto& [j, a] : S.row[i])
            if (j < i) s -= w * a * y[j];
        y[i] = s / S.row[i][i];
    }
    for (uint32_t i = m; i-- > 0;) {
        ld s = S.row[i][i] * y[i];
        for (auto& [j, a] : S.row[i])
            if (j > i) s -= w * a * x[j];
        x[i] = s / S.row[i][i];
    }
    for (uint32_t i = 0; i < m; i++) mag = std::max({mag, fabsl(x[i]), fabsl(y[i])});
    for (uint32_t i = 0; i < m; i++) CHECK(near(r[i], x[i], mag, 1e-10L), "ssor", "element %u is %.17g, should be %.17Lg", i, r[i], x[i]);
}
