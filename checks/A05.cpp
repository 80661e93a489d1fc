// Dirichlet conditions against the constrained dense system
#include "algebra_common.hpp"

PROPERTY(linear, 75000, 1000000, "a random SPD system with Dirichlet conditions on distinct nodes imposed in a random order, some of them repeated, against the dense constrained problem and against another order; non-trivial: at least two conditions of which one on a coupled node, and a free node") {
    Spd S = genSpd(g, 24);
    uint32_t m = S.m;
    std::vector<double> b(m);
    for (auto& v : b) v = g.mixed(100);
    std::vector<uint32_t> ids(m);
    for (uint32_t i = 0; i < m; i++) ids[i] = i;
    g.shuffle(ids);
    uint32_t k = g.size(1, std::min<uint32_t>(m, 8));
    k = std::min(k, m);
    std::map<uint32_t, double> bc;
    std::vector<uint32_t> order;
    for (uint32_t i = 0; i < k; i++) bc[ids[i]] = g.mixed(1000), order.push_back(ids[i]);
    auto coo = S.coo(g.coin(0.3));
    System<double> sys(coo, b);
    std::string o;
    for (auto id : order) {
        o += pbt::fmt(" %u:=%.17g", id, bc[id]);
        sys.addDirichletBoundaryCondition(id, bc[id]);
        if (g.coin(0.15)) sys.addDirichletBoundaryCondition(id, bc[id]), o += "(twice)";
    }
    g.note("%s b=%s conditions%s", show(S).c_str(), vecs(b).c_str(), o.c_str());
    auto D = S.dense();
    bool coupled = false;
    for (auto id : order)
        for (uint32_t j = 0; j < m; j++) coupled |= j != id && D[id][j] != 0;
    g.nontrivial(k >= 2 && coupled && k < m);
    g.label(k == m ? "all nodes fixed" : "some nodes free");
    CHECK(sys.b.size() == m, "size", "b has %zu elements", sys.b.size());
    MatCSRSymmetric A(sys.A);
    for (uint32_t i = 0; i < m; i++)
        for (uint32_t j = 0; j < m; j++) {
            double want = bc.count(i) || bc.count(j) ? (i == j ? 1.0 : 0.0) : (double)D[i][j];
            CHECK(A(i, j) == want, "matrix", "element (%u,%u) is %.17g, should be %.17g", i, j, A(i, j), want);
        }
    for (uint32_t i = 0; i < m; i++) {
        if (bc.count(i)) {
            CHECK(sys.b[i] == bc[i], "rhs-fixed", "b[%u] of a fixed node is %.17g, should be %.17g", i, sys.b[i], bc[i]);
        } else {
            ld w = b[i], mag = fabsl(w);
            for (auto& [id, v] : bc) w -= D[i][id] * v, mag += fabsl(D[i][id] * v);
            CHECK(near(sys.b[i], w, mag, 1e-13L), "rhs-free", "b[%u] of a free node is %.17g, should be %.17Lg", i, sys.b[i], w);
        }
    }
    // what the library's system says, solved exactly: the prescribed values, and the original equations elsewhere
    auto L = ref::zeros(m);
    for (uint32_t i = 0; i < m; i++)
        for (uint32_t j = 0; j < m; j++) L[i][j] = A(i, j);
    ref::Vec x;
    CHECK(ref::solve(L, ref::toL(sys.b), x), "singular", "the constrained system is singular");
    ld bn = ref::norm2(ref::toL(sys.b));
    for (auto& [id, v] : bc) CHECK(near(x[id], v, fabs(v), 1e-12L), "prescribed", "the solution is %.17Lg at node %u, prescribed %.17g", x[id], id, v);
    auto y = ref::mul(D, x);
    ld rs = S.frob() * (ref::norm2(x) + 1e-30L) + bn;
    for (uint32_t i = 0; i < m; i++)
        if (!bc.count(i)) CHECK(near(y[i], b[i], rs, 1e-12L), "equation", "the equation of free node %u has the residual %Lg", i, y[i] - b[i]);
}

PROPERTY(nonlinear, 40000, 500000, "a system of nonlinear expressions with Dirichlet conditions, evaluated at arbitrary permeabilities, against the linear system assembled at the same permeabilities; non-trivial: two conditions, a free node and two permeabilities") {
    uint32_t m = 1 + g.size(0, 11), ne = 1 + g.draw(6);
    MatCOOSymmetric<NonLinearExpression> coo(m);
    std::vector<std::vector<std::pair<double, int>>> terms;  // per element: coefficient, index of mu or -1
    std::vector<std::pair<uint32_t, uint32_t>> pos;
    int n = g.size(0, 40);
    struct T {
        uint32_t i, j;
        double c;
        int mu;
    };
    std::vector<T> ts;
    for (int k = 0; k < n; k++) {
        T t{(uint32_t)g.draw(m - 1), (uint32_t)g.draw(m - 1), g.mixed(50), (int)g.draw(ne) - 1};
        if (t.i > t.j) std::swap(t.i, t.j);
        ts.push_back(t);
        if (t.mu < 0) coo(t.i, t.j) += t.c;
        else coo(t.i, t.j) += NonLinearTerm{t.c, (uint32_t)t.mu};
    }
    std::vector<double> b(m);
    for (auto& v : b) v = g.mixed(50);
    System<NonLinearExpression> sys(m);
    sys.A = coo;
    for (uint32_t i = 0; i < m; i++) sys.b[i] += b[i];
    std::map<uint32_t, double> bc;
    uint32_t k = g.draw(std::min<uint32_t>(m, 4));
    for (uint32_t i = 0; i < k; i++) {
        uint32_t id = g.draw(m - 1);
        if (bc.count(id)) continue;
        bc[id] = g.mixed(100);
        sys.addDirichletBoundaryCondition(id, bc[id]);
    }
    g.nontrivial(bc.size() >= 2 && bc.size() < m && n >= 4);
    g.note("m=%u mu=%u terms=%d conditions=%zu", m, ne, n, bc.size());
    NonLinearMatCSRSymmetric N(sys.A);
    for (int rep = 0; rep < 2; rep++) {
        std::vector<double> mu(ne);
        for (auto& v : mu) v = g.logreal(1e-6, 10);
        N.evaluate(mu);
        auto D = ref::zeros(m), M = ref::zeros(m);
        for (auto& t : ts) {
            ld v = t.mu < 0 ? (ld)t.c : (ld)t.c / mu[t.mu];
            D[t.i][t.j] += v, M[t.i][t.j] += fabsl(v);
        }
        for (uint32_t i = 0; i < m; i++)
            for (uint32_t j = 0; j < i; j++) D[i][j] = D[j][i], M[i][j] = M[j][i];
        for (uint32_t i = 0; i < m; i++) {
            for (uint32_t j = 0; j < m; j++) {
                ld want = bc.count(i) || bc.count(j) ? (i == j ? 1 : 0) : D[i][j];
                CHECK(near(N(i, j), want, M[i][j], 1e-13L), "matrix", "element (%u,%u) is %.17g, should be %.17Lg", i, j, N(i, j), want);
            }
            double got = sys.b[i].evaluate(mu);
            if (bc.count(i)) CHECK(got == bc[i], "rhs-fixed", "b[%u] is %.17g, prescribed %.17g", i, got, bc[i]);
            else {
                ld w = b[i], mag = fabsl(w);
                for (auto& [id, v] : bc) w -= D[i][id] * v, mag += M[i][id] * fabsl((ld)v);
                CHECK(near(got, w, mag, 1e-13L), "rhs-free", "b[%u] is %.17g, should be %.17Lg", i, got, w);
            }
        }
    }
}

PROPERTY(large, 100, 1500, "conditions on a sparse system of up to 100000 unknowns, on the last ones too; non-trivial: more than 1000 unknowns and two conditions") {
    auto S = genBig(g);
    uint32_t m = S.m;
    auto b = S.vec(100);
    std::map<uint32_t, double> bc;
    std::string o;
    auto coo = S.coo();
    System<double> sys(coo, b);
    int k = 1 + g.draw(5);
    for (int i = 0; i < k; i++) {
        uint32_t id = g.coin(0.3) ? m - 1 - g.draw(3) : g.draw(m - 1);
        if (bc.count(id)) continue;
        bc[id] = g.mixed(100);
        o += pbt::fmt(" %u:=%.17g", id, bc[id]);
        sys.addDirichletBoundaryCondition(id, bc[id]);
    }
    g.note("conditions%s", o.c_str());
    g.nontrivial(m > 1000 && bc.size() > 1);
    MatCSRSymmetric A(sys.A);
    std::vector<double> one(m), y(m), want(m);
    for (auto& v : one) v = S.real(-1, 1);
    mult(y, A, one);
    for (uint32_t i = 0; i < m; i++) {
        ld w = 0, r = b[i], mag = fabs(b[i]), wm = 0;
        if (bc.count(i)) w = one[i], r = bc[i], wm = fabsl(w), mag = fabsl(r);
        else
            for (auto& [j, v] : S.row[i]) {
                if (bc.count(j)) r -= v * bc[j], mag += fabs(v * bc[j]);
                else w += v * (ld)one[j], wm += fabs(v * one[j]);
            }
        CHECK(near(y[i], w, wm, 1e-12L), "matrix", "row %u times a vector is %.17g, should be %.17Lg", i, y[i], w);
        CHECK(near(sys.b[i], r, mag, 1e-12L), "rhs", "b[%u] is %.17g, should be %.17Lg", i, sys.b[i], r);
    }
}
