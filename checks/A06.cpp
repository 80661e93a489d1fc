// nonlinear expressions against a symbolic model
#include "algebra_common.hpp"

struct Model {
    ld c = 0;
    std::map<uint32_t, ld> t, mag;
    ld cmag = 0;
    ld eval(const std::vector<double>& mu) const {
        ld s = c;
        for (auto& [i, v] : t) s += v / mu[i];
        return s;
    }
    ld scale(const std::vector<double>& mu) const {
        ld s = cmag;
        for (auto& [i, v] : mag) s += v / fabsl((ld)mu[i]);
        return s;
    }
};

PROPERTY(expressions, 480000, 6000000, "a random program of assignments, +=, -=, * and copies over four expressions, evaluated at several permeability vectors after every few steps, against a constant-plus-map model; non-trivial: five operations with a nonlinear term") {
    uint32_t ne = 1 + g.draw(7);
    NonLinearExpression E[4];
    Model M[4];
    int n = g.size(1, 40), withTerm = 0;
    auto check = [&]() {
        std::vector<double> mu(ne);
        for (auto& v : mu) v = g.logreal(1e-7, 10);
        for (int k = 0; k < 4; k++) {
            double got = E[k].evaluate(mu);
            CHECK(near(got, M[k].eval(mu), M[k].scale(mu), 1e-12L), "value", "expression %d evaluates to %.17g, should be %.17Lg", k, got, M[k].eval(mu));
        }
    };
    for (int s = 0; s < n; s++) {
        int a = g.draw(3), b = g.draw(3), op = g.draw(9);
        double d = g.mixed(100);
        uint32_t idx = g.draw(ne - 1);
        g.note("op %d on %d with %d d=%g idx=%u", op, a, b, d, idx);
        if (M[a].cmag > 1e12 || M[b].cmag > 1e12) op = 0;
        size_t nt = 0;
        switch (op) {
            case 0:
                E[a] = d;
                M[a] = Model();
                M[a].c = d, M[a].cmag = fabs(d);
                CHECK(E[a].isLinear(), "linear", "a constant is not linear");
                break;
            case 1: E[a] = E[b]; M[a] = M[b]; break;
            case 2: E[a] += d; M[a].c += d, M[a].cmag += fabs(d); break;
            case 3: E[a] -= d; M[a].c -= d, M[a].cmag += fabs(d); break;
            case 4:
                E[a] += NonLinearTerm{d, idx};
                M[a].t[idx] += d, M[a].mag[idx] += fabs(d), withTerm++;
                CHECK(!E[a].isLinear(), "linear", "an expression with a term is linear");
                break;
            case 5: E[a] -= NonLinearTerm{d, idx}; M[a].t[idx] -= d, M[a].mag[idx] += fabs(d), withTerm++; break;
            case 6: case 7:
                if (a == b) break;
                if (op == 6) E[a] += E[b];
                else E[a] -= E[b];
                M[a].c += (op == 6 ? 1 : -1) * M[b].c, M[a].cmag += M[b].cmag;
                for (auto& [i, v] : M[b].t) M[a].t[i] += (op == 6 ? 1 : -1) * v;
                for (auto& [i, v] : M[b].mag) M[a].mag[i] += v;
                for (auto& [i, v] : M[a].t) nt++;
                break;
            case 8: {
                d = std::max(-4.0, std::min(4.0, d));
                E[a] = E[b] * d;
                Model r = M[b];
                r.c *= d, r.cmag *= fabs(d);
                for (auto& [i, v] : r.t) v *= d;
                for (auto& [i, v] : r.mag) v *= fabs(d);
                M[a] = r;
                break;
            }
            default: check(); break;
        }
        for (int k = 0; k < 4; k++)
            for (auto& [i, v] : M[k].mag) ASSUME(v < 1e15L);
    }
    g.nontrivial(n >= 5 && withTerm > 0);
    check();
    check();
}

PROPERTY(matrix, 200000, 2400000, "a matrix of nonlinear expressions evaluated repeatedly at different permeabilities (a history of evaluations) against the dense matrix of the latest ones, element by element and as a product; non-trivial: an off-diagonal nonlinear element and two evaluations") {
    uint32_t m = 1 + g.size(0, 19), ne = 1 + g.draw(9);
    MatCOOSymmetric<NonLinearExpression> coo(m);
    struct T {
        uint32_t i, j;
        double c;
        int mu;
    };
    std::vector<T> ts;
    int n = g.size(0, 100);
    bool off = false;
    for (int k = 0; k < n; k++) {
        T t{(uint32_t)g.draw(m - 1), (uint32_t)g.draw(m - 1), g.mixed(50), (int)g.draw(ne) - 1};
        if (t.i > t.j) std::swap(t.i, t.j);
        if (g.coin(0.3)) t.j = t.i;
        off |= t.i != t.j && t.mu >= 0;
        ts.push_back(t);
        bool minus = g.coin(0.3);
        if (t.mu < 0) minus ? coo(t.i, t.j) -= -t.c : coo(t.i, t.j) += t.c;
        else minus ? coo(t.i, t.j) -= NonLinearTerm{-t.c, (uint32_t)t.mu} : coo(t.i, t.j) += NonLinearTerm{t.c, (uint32_t)t.mu};
    }
    int reps = 1 + g.draw(3);
    g.nontrivial(off && reps >= 2);
    g.note("m=%u mu=%u terms=%d evaluations=%d", m, ne, n, reps);
    NonLinearMatCSRSymmetric N(coo);
    for (int rep = 0; rep < reps; rep++) {
        std::vector<double> mu(ne), x(m), y(m, 5e55);
        for (auto& v : mu) v = g.logreal(1e-6, 10);
        N.evaluate(mu);
        auto D = ref::zeros(m), M = ref::zeros(m);
        for (auto& t : ts) {
            ld v = t.mu < 0 ? (ld)t.c : (ld)t.c / mu[t.mu];
            D[t.i][t.j] += v, M[t.i][t.j] += fabsl(v);
        }
        for (uint32_t i = 0; i < m; i++)
            for (uint32_t j = 0; j < i; j++) D[i][j] = D[j][i], M[i][j] = M[j][i];
        for (auto& v : x) v = g.mixed(10);
        mult(y, (const MatCSRSymmetric&)N, x);
        for (uint32_t i = 0; i < m; i++) {
            ld w = 0, mag = 0;
            for (uint32_t j = 0; j < m; j++) {
                CHECK(near(N(i, j), D[i][j], M[i][j], 1e-13L), "element", "evaluation %d: element (%u,%u) is %.17g, should be %.17Lg", rep, i, j, N(i, j), D[i][j]);
                w += D[i][j] * x[j], mag += M[i][j] * fabsl((ld)x[j]);
            }
            CHECK(near(y[i], w, mag, 1e-12L), "product", "evaluation %d: row %u of the product is %.17g, should be %.17Lg", rep, i, y[i], w);
        }
    }
}

PROPERTY(large, 100, 1500, "a sparse matrix of expressions of up to 80000 rows in as many permeabilities, evaluated twice, as a product; non-trivial: more than 1000 permeabilities") {
    uint32_t ne = g.coin(0.4) ? 65537 + g.draw(15000) : (uint32_t)g.logreal(300, 80000), m = 2 + (uint32_t)(ne * g.real(0.3, 1));
    uint64_t state = g.draw(UINT64_MAX);
    auto rnd = [&](double lo, double hi) {
        state += 0x9e3779b97f4a7c15ull;
        return lo + (hi - lo) * ((double)(pbt::mix(state) >> 11) / 9007199254740992.0);
    };
    g.note("%u permeabilities, %u rows, seed %" PRIu64, ne, m, state);
    g.nontrivial(ne > 1000);
    struct T {
        uint32_t i, j, e;
        double c;
    };
    std::vector<T> ts;
    MatCOOSymmetric<NonLinearExpression> coo(m);
    for (uint32_t e = 0; e < ne; e++) {
        uint32_t i = (uint32_t)((double)e / ne * (m - 1)), j = std::min<uint32_t>(m - 1, i + (uint32_t)rnd(0, 3));
        if (rnd(0, 1) < 0.01) j = std::min<uint32_t>(m - 1, (uint32_t)rnd(0, m));
        if (i > j) std::swap(i, j);
        double c = rnd(-10, 10);
        ts.push_back({i, j, e, c});
        coo(i, j) += NonLinearTerm{c, e};
    }
    NonLinearMatCSRSymmetric N(coo);
    for (int rep = 0; rep < 2; rep++) {
        std::vector<double> mu(ne), x(m), y(m);
        for (auto& v : mu) v = rnd(0.1, 10);
        for (auto& v : x) v = rnd(-1, 1);
        N.evaluate(mu);
        mult(y, (const MatCSRSymmetric&)N, x);
        std::vector<ld> want(m), mag(m);
        for (auto& t : ts) {
            ld v = (ld)t.c / mu[t.e];
            want[t.i] += v * x[t.j], mag[t.i] += fabsl(v * x[t.j]);
            if (t.i != t.j) want[t.j] += v * x[t.i], mag[t.j] += fabsl(v * x[t.i]);
        }
        for (uint32_t i = 0; i < m; i++) CHECK(near(y[i], want[i], mag[i], 1e-12L), "product", "evaluation %d: row %u is %.17g, should be %.17Lg", rep, i, y[i], want[i]);
    }
}
