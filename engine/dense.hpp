// dense reference linear algebra in long double, independent of the code under test
#pragma once
#include <cmath>
#include <vector>
#include "pbt.hpp"

namespace ref {
typedef long double ld;
typedef std::vector<std::vector<ld>> Mat;
typedef std::vector<ld> Vec;

inline Mat zeros(size_t n) { return Mat(n, Vec(n, 0)); }

inline Vec mul(const Mat& A, const Vec& x) {
    Vec y(A.size(), 0);
    for (size_t i = 0; i < A.size(); i++)
        for (size_t j = 0; j < x.size(); j++) y[i] += A[i][j] * x[j];
    return y;
}
// Gaussian elimination with partial pivoting; false when singular
inline bool solve(Mat A, Vec b, Vec& x) {
    size_t n = A.size();
    for (size_t c = 0; c < n; c++) {
        size_t p = c;
        for (size_t r = c + 1; r < n; r++)
            if (fabsl(A[r][c]) > fabsl(A[p][c])) p = r;
        if (A[p][c] == 0) return false;
        std::swap(A[p], A[c]);
        std::swap(b[p], b[c]);
        for (size_t r = c + 1; r < n; r++) {
            ld f = A[r][c] / A[c][c];
            if (f == 0) continue;
            for (size_t k = c; k < n; k++) A[r][k] -= f * A[c][k];
            b[r] -= f * b[c];
        }
    }
    x.assign(n, 0);
    for (size_t i = n; i-- > 0;) {
        ld s = b[i];
        for (size_t k = i + 1; k < n; k++) s -= A[i][k] * x[k];
        x[i] = s / A[i][i];
    }
    return true;
}
inline ld norm2(const Vec& v) {
    ld s = 0;
    for (ld x : v) s += x * x;
    return sqrtl(s);
}
inline Vec toL(const std::vector<double>& v) { return Vec(v.begin(), v.end()); }

// sparse symmetric matrix as rows of (column, value), for larger references
struct Sparse {
    std::vector<std::map<uint32_t, ld>> rows;
    explicit Sparse(size_t n) : rows(n) {}
    void add(uint32_t i, uint32_t j, ld v) { rows[i][j] += v; }
    Vec mul(const Vec& x) const {
        Vec y(rows.size(), 0);
        for (size_t i = 0; i < rows.size(); i++)
            for (auto& [j, v] : rows[i]) y[i] += v * x[j];
        return y;
    }
};
}  // namespace ref
