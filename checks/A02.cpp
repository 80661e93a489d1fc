// vector kernels against scalar loops, every length and every aliasing the callers use
#include "algebra_common.hpp"

static double special(pbt::Gen& g) {
    if (!g.coin(0.04)) return g.mixed(1e9);
    switch (g.draw(4)) {
        case 0: return INFINITY;
        case 1: return -INFINITY;
        case 2: return -0.0;
        case 3: return 1e-310;
        default: return 1e300;
    }
}
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

PROPERTY(kernels, 800000, 12000000, "one vector kernel on vectors of 0..200 elements, sometimes up to 20000, with the result aliasing none, one or both operands; non-trivial: at least two elements") {
    bool big = g.coin(0.002);
    int n = big ? 200 + (int)g.draw(g.coin() ? 2000 : 20000) : g.size(0, 200);
    if (big) g.label("long vectors");
    std::vector<double> a(n), b(n), r(n, 7e77);
    for (auto& v : a) v = special(g);
    for (auto& v : b) v = special(g);
    double d = special(g);
    int op = g.draw(12), alias = g.draw(3);
    g.nontrivial(n >= 2);
    static const char* names[] = {"mult(d,v)", "mult(v,v)", "add(v,v)", "sub(v,v)", "div(v,d)", "div(v,v)", "sub(v,d)", "add(v,d)", "copy", "addScaled", "dot", "squareSum/norm", "isnan/norms"};
    g.label(names[op]);
    g.note("%s n=%d d=%.17g alias=%d a=%s b=%s", names[op], n, d, alias, vecs(a).c_str(), vecs(b).c_str());
    std::vector<double> A = a, B = b;
    std::vector<double>* res = alias == 1 ? &a : alias == 2 ? &b : &r;
    std::vector<double>* y = alias == 3 ? &a : &b;  // alias 3: both operands are the same vector
    if (alias == 3) B = A;
    std::vector<double> want(n);
    switch (op) {
        case 0: for (int i = 0; i < n; i++) want[i] = d * A[i]; mult(*res, d, a); break;
        case 1: for (int i = 0; i < n; i++) want[i] = A[i] * B[i]; mult(*res, a, *y); break;
        case 2: for (int i = 0; i < n; i++) want[i] = A[i] + B[i]; add(*res, a, *y); break;
        case 3: for (int i = 0; i < n; i++) want[i] = A[i] - B[i]; sub(*res, a, *y); break;
        case 4: for (int i = 0; i < n; i++) want[i] = A[i] / d; div(*res, a, d); break;
        case 5: for (int i = 0; i < n; i++) want[i] = A[i] / B[i]; div(*res, a, *y); break;
        case 6: for (int i = 0; i < n; i++) want[i] = A[i] - d; sub(*res, a, d); break;
        case 7: for (int i = 0; i < n; i++) want[i] = A[i] + d; add(*res, a, d); break;
        case 8: want = A; nikfemm::copy(*res, a); break;
        case 9: for (int i = 0; i < n; i++) want[i] = A[i] + d * B[i]; addScaled(*res, a, d, *y); break;
        case 10: case 11: {
            ld s = 0, mag = 0;
            auto& Y = op == 11 ? A : B;
            bool finite = true;
            for (int i = 0; i < n; i++) {
                s += (ld)A[i] * Y[i], mag += fabsl((ld)A[i] * Y[i]);
                finite &= std::isfinite(A[i] * Y[i]);
            }
            ASSUME(finite && mag < 1e300L);
            double got = op == 10 ? dot(a, *y) : squareSum(a);
            CHECK(near(got, s, mag + 1e-300L, 1e-13L), "dot", "%s is %.17g, should be %.17Lg", names[op], got, s);
            if (op == 11) {
                double gn = norm(a);
                CHECK(near(gn, sqrtl(s), sqrtl(s) + 1e-150L, 1e-13L), "norm", "norm is %.17g, should be %.17Lg", gn, sqrtl(s));
            }
            CHECK(std::equal(a.begin(), a.end(), A.begin(), same) && (op == 11 || std::equal(y->begin(), y->end(), B.begin(), same)), "operand", "%s changed its operand", names[op]);
            return;
        }
        default: {
            CHECK(!nikfemm::isnan(a), "isnan", "isnan finds a NaN that is not there");
            if (n) {
                int k = g.draw(n - 1);
                a[k] = NAN;
                CHECK(nikfemm::isnan(a), "isnan", "isnan misses the NaN at %d of %d", k, n);
            }
            CHECK(nikfemm::isnan(NAN) && !nikfemm::isnan(d), "isnan", "isnan of a number");
            std::vector<Vector> v;
            for (int i = 0; i < n; i++) v.push_back(Vector(A[i], B[i]));
            auto e = element_wise_norm(v);
            CHECK((int)e.size() == n, "ewn", "element_wise_norm has %zu elements, not %d", e.size(), n);
            for (int i = 0; i < n; i++) {
                if (!(fabs(A[i]) < 1e140 && fabs(B[i]) < 1e140)) continue;
                ld w = sqrtl((ld)A[i] * A[i] + (ld)B[i] * B[i]);
                CHECK(near(e[i], w, w + 1e-150L, 1e-13L), "ewn", "norm of (%.17g,%.17g) is %.17g", A[i], B[i], e[i]);
            }
            return;
        }
    }
    CHECK((int)res->size() == n, "size", "%s resized the result to %zu", names[op], res->size());
    for (int i = 0; i < n; i++) {
        double w = want[i], got = (*res)[i];
        double scale = op == 9 ? fabs(A[i]) + fabs(d * B[i]) : fabs(w);
        CHECK(same(got, w) || (std::isfinite(w) && fabs(got - w) <= 1e-14 * scale), "value", "%s: element %d of %d is %.17g, should be %.17g", names[op], i, n, got, w);
    }
    if (res != &a) CHECK(std::equal(a.begin(), a.end(), A.begin(), same), "operand", "%s changed its first operand", names[op]);
    if (res != &b && alias != 3) CHECK(std::equal(b.begin(), b.end(), B.begin(), same), "operand", "%s changed its second operand", names[op]);
}
