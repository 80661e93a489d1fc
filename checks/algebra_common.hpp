#pragma once
#include <nikfemm.hpp>
#include "dense.hpp"
#include "pbt.hpp"
using namespace nikfemm;
using ref::ld;

// |a - b| within a relative tolerance of scale
inline bool near(ld a, ld b, ld scale, ld rel) { return fabsl(a - b) <= rel * scale || (a == b); }

inline std::string vecs(const std::vector<double>& v, size_t max = 12) {
    std::string s = "[";
    for (size_t i = 0; i < v.size() && i < max; i++) s += pbt::fmt("%s%.17g", i ? " " : "", v[i]);
    if (v.size() > max) s += pbt::fmt(" ...(%zu)", v.size());
    return s + "]";
}

// symmetric positive definite matrices with a known lower bound of the smallest eigenvalue
struct Spd {
    uint32_t m = 0;
    std::map<std::pair<uint32_t, uint32_t>, double> e;  // i <= j
    double lamMin = 0, scale = 1;
    std::string kind;

    MatCOOSymmetric<double> coo(bool explicitZeros = false) const {
        MatCOOSymmetric<double> c(m);
        for (auto& [k, v] : e)
            if (v != 0 || explicitZeros || k.first == k.second) c(k.first, k.second) = v;
        return c;
    }
    ref::Mat dense() const {
        auto A = ref::zeros(m);
        for (auto& [k, v] : e) A[k.first][k.second] = A[k.second][k.first] = v;
        return A;
    }
    ld frob() const {
        ld s = 0;
        for (auto& [k, v] : e) s += (ld)v * v * (k.first == k.second ? 1 : 2);
        return sqrtl(s);
    }
};

inline Spd genSpd(pbt::Gen& g, int maxm) {
    Spd S;
    int kind = g.draw(5);
    S.scale = g.coin(0.6) ? 1.0 : g.logreal(1e-6, 1e6);
    int n = 1 + g.size(0, maxm - 1);
    auto put = [&](uint32_t i, uint32_t j, double v) { S.e[{std::min(i, j), std::max(i, j)}] += v; };
    auto weight = [&]() { return g.coin(0.5) ? (double)(1 + g.draw(8)) : g.real(0.05, 10); };
    double margin = g.coin(0.5) ? 1.0 : g.logreal(0.01, 10);
    if (kind == 0) {  // diagonal
        S.kind = "diagonal";
        S.m = n;
        for (int i = 0; i < n; i++) put(i, i, margin + weight() - 0.04);
    } else if (kind == 1) {  // chain / arrow
        S.kind = "chain";
        S.m = n;
        bool arrow = g.coin(0.4);
        for (int i = 1; i < n; i++) {
            double w = weight();
            uint32_t j = arrow ? 0 : i - 1;
            put(i, i, w), put(j, j, w), put(i, j, -w);
        }
        for (int i = 0; i < n; i++) put(i, i, margin);
    } else if (kind == 2) {  // grid laplacian like a fem matrix
        S.kind = "grid";
        int w = 1 + g.draw(7), h = std::max(1, std::min(maxm / w, 1 + (int)g.draw(7)));
        S.m = w * h;
        for (int y = 0; y < h; y++)
            for (int x = 0; x < w; x++) {
                uint32_t a = y * w + x;
                if (x + 1 < w) {
                    double k = weight();
                    put(a, a, k), put(a + 1, a + 1, k), put(a, a + 1, -k);
                }
                if (y + 1 < h) {
                    double k = weight();
                    put(a, a, k), put(a + w, a + w, k), put(a, a + w, -k);
                }
                put(a, a, margin);
            }
    } else {  // random sparse, diagonally dominant, couplings of both signs
        S.kind = kind == 5 ? "dense" : "sparse";
        S.m = n;
        double dens = kind == 5 ? 1.0 : g.real(0.02, 0.6);
        for (int i = 0; i < n; i++) {
            put(i, i, margin);
            for (int j = i + 1; j < n; j++)
                if (g.coin(dens)) {
                    double w = weight() * (g.coin() ? 1 : -1);
                    put(i, j, w), put(i, i, fabs(w)), put(j, j, fabs(w));
                }
        }
    }
    for (auto& [k, v] : S.e) v *= S.scale;
    S.lamMin = margin * S.scale * 0.99;
    return S;
}

inline std::string show(const Spd& S) {
    std::string s = pbt::fmt("%s matrix of %u rows scale %g {", S.kind.c_str(), S.m, S.scale);
    int c = 0;
    for (auto& [k, v] : S.e) {
        if (c++ > 40) {
            s += " ...";
            break;
        }
        s += pbt::fmt(" (%u,%u)=%.9g", k.first, k.second, v);
    }
    return s + " }";
}

// large sparse symmetric positive definite matrices: the grid of a mesh with some couplings across it.  The values come
// from one drawn seed
struct BigSpd {
    uint32_t m = 0;
    std::vector<std::map<uint32_t, double>> row;  // all of them, on both sides of the diagonal
    uint64_t state = 0;
    double real(double lo, double hi) {
        state += 0x9e3779b97f4a7c15ull;
        return lo + (hi - lo) * ((double)(pbt::mix(state) >> 11) / 9007199254740992.0);
    }
    MatCOOSymmetric<double> coo() const {
        MatCOOSymmetric<double> c(m);
        for (uint32_t i = 0; i < m; i++)
            for (auto& [j, v] : row[i])
                if (j >= i) c(i, j) += v;
        return c;
    }
    ref::Vec mul(const ref::Vec& x) const {
        ref::Vec y(m);
        for (uint32_t i = 0; i < m; i++)
            for (auto& [j, v] : row[i]) y[i] += v * x[j];
        return y;
    }
    std::vector<double> vec(double s) {
        std::vector<double> v(m);
        for (auto& x : v) x = real(-s, s);
        return v;
    }
};
inline BigSpd genBig(pbt::Gen& g, uint32_t maxm = 100000) {
    BigSpd S;
    S.m = g.coin(0.4) ? std::min<uint32_t>(maxm, 65537 + g.draw(20000)) : (uint32_t)g.logreal(300, maxm);
    uint32_t w = 1 + g.draw(g.coin() ? 3 : 300);
    S.state = g.draw(UINT64_MAX);
    S.row.resize(S.m);
    g.note("%u unknowns in rows of %u, seed %" PRIu64, S.m, w, S.state);
    if (S.m > 65536) g.label("more than 65536 unknowns");
    auto couple = [&](uint32_t a, uint32_t b) {
        double k = S.real(0.1, 3);
        S.row[a][a] += k, S.row[b][b] += k, S.row[a][b] -= k, S.row[b][a] -= k;
    };
    for (uint32_t i = 0; i < S.m; i++) {
        S.row[i][i] += S.real(0.5, 1);
        if (i + 1 < S.m && (i + 1) % w) couple(i, i + 1);
        if (i + w < S.m) couple(i, i + w);
    }
    int far = g.draw(20);
    for (int k = 0; k < far; k++) {
        uint32_t a = (uint32_t)S.real(0, S.m), b = (uint32_t)S.real(0, S.m);
        if (a != b && a < S.m && b < S.m) couple(a, b);
    }
    return S;
}
