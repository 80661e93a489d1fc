// conductors: generated layers, their finite element reference and its solution
#pragma once
#include "dense.hpp"
#include "meshing.hpp"

namespace scene {
using namespace nikfemm;

// nikfemm's solver stops at an absolute residual, so conductances are kept around and above one
struct Layer {
    Scene S;
    std::vector<double> sigma;  // of the faces
    double depth = 1;
    std::string show() const {
        std::string s = pbt::fmt("depth %.17g%s", depth, S.show().c_str());
        for (size_t i = 0; i < sigma.size(); i++) s += pbt::fmt("\n  #%zu sigma %.17g", i, sigma[i]);
        return s;
    }
    void draw(CurrentDensityMesh& m) const {
        S.drawAll(m.drawing);
        for (int i : S.order) m.drawing.drawRegion(S.faces[i].seed, {sigma[i]});
    }
};
struct CondOpts {
    double minSigma = 1, maxSigma = 1e3;
    double minDepth = 1, maxDepth = 10;
    bool contrast = true;
};
inline Layer makeLayer(pbt::Gen& g, Opts o, CondOpts c = CondOpts()) {
    Layer L;
    L.S = make(g, o);
    bool same = !c.contrast || g.coin(0.2);
    for (size_t i = 0; i < L.S.faces.size(); i++) L.sigma.push_back(i && (same || g.coin(0.15)) ? L.sigma[g.draw(i - 1)] : g.logreal(c.minSigma, c.maxSigma));
    L.depth = g.coin(0.3) ? c.minDepth : g.logreal(c.minDepth, c.maxDepth);
    return L;
}
inline Params condParams(pbt::Gen& g, double total, int maxTri) {
    Params p;
    p.area = total / g.logreal(4, maxTri);
    if (g.coin(0.05)) p.area = total * 10;
    p.angle = g.coin(0.4) ? 33 : 5 + (int)g.draw(28);
    p.refine = g.coin(0.2);
    return p;
}
// conductivity of an element, from the scene
inline double sigmaOf(const Layer& L, CurrentDensityMesh& m, uint32_t i) {
    Vector c = centroid(m.data, i) + m.center;
    if (L.S.edgeDist(c) < 1e-9 * L.S.size()) return m.drawing.getRegionPtrFromId(m.data.triangleattributelist[i])->sigma;
    int f = L.S.faceOf(c);
    return f < 0 ? NAN : L.sigma[f];
}
// stiffness of piecewise linear functions by the cotangents of the angles opposite to the edges
inline void addStiffness(ref::Sparse& K, size_t off, CurrentDensityMesh& m, const Layer& L) {
    auto& d = m.data;
    for (int i = 0; i < d.numberoftriangles; i++) {
        auto& t = d.trianglelist[i].verts;
        ld s = (ld)sigmaOf(L, m, i) * L.depth, A2 = fabsl(cross(d.pointlist[t[0]], d.pointlist[t[1]], d.pointlist[t[2]]));
        for (int k = 0; k < 3; k++) {
            int a = t[k], b = t[(k + 1) % 3], c = t[(k + 2) % 3];
            Vector pa = d.pointlist[a], pb = d.pointlist[b], pc = d.pointlist[c];
            ld cot = (((ld)pa.x - pc.x) * ((ld)pb.x - pc.x) + ((ld)pa.y - pc.y) * ((ld)pb.y - pc.y)) / A2, w = s * cot / 2;
            K.add(off + a, off + b, -w), K.add(off + b, off + a, -w);
            K.add(off + a, off + a, w), K.add(off + b, off + b, w);
        }
    }
}
inline void addResistor(ref::Sparse& K, size_t a, size_t b, double R) {
    if (a == b) return;
    K.add(a, a, 1 / (ld)R), K.add(b, b, 1 / (ld)R), K.add(a, b, -1 / (ld)R), K.add(b, a, -1 / (ld)R);
}
// nearest vertex to a point; tie: another one is as near up to rounding
inline int nearest(const MeshData& d, Vector p, bool& tie) {
    ld best = INFINITY, second = INFINITY;
    int at = -1;
    for (int i = 0; i < d.numberofpoints; i++) {
        ld x = hypotl((ld)d.pointlist[i].x - p.x, (ld)d.pointlist[i].y - p.y);
        if (x < best) second = best, best = x, at = i;
        else second = std::min(second, x);
    }
    ld mag = fabsl(p.x) + fabsl(p.y) + fabsl(d.pointlist[at].x) + fabsl(d.pointlist[at].y);
    tie = second - best < 1e-13L * mag + 1e-7L * second;
    return at;
}
// the entries of a generated matrix against the reference
inline void checkMatrix(const System<double>& sys, const ref::Sparse& K, ld tolRel) {
    size_t n = K.rows.size();
    CHECK(sys.A.m == n && sys.b.size() == n, "size", "%u rows and %zu right-hand sides for %zu vertices", sys.A.m, sys.b.size(), n);
    std::map<std::pair<uint32_t, uint32_t>, double> got;
    for (auto& e : sys.A.elems) {
        uint32_t r = e.first >> 32, c = e.first & 0xffffffff;
        CHECK(r < n && c < n, "index", "entry (%u,%u) in a matrix of %zu rows", r, c, n);
        if (r > c) std::swap(r, c);
        CHECK(!got.count({r, c}), "twice", "entry (%u,%u) is there twice", r, c);
        got[{r, c}] = e.second;
    }
    for (size_t i = 0; i < n; i++)
        for (auto& [j, v] : K.rows[i]) {
            if (j < i) continue;
            auto f = got.find({(uint32_t)i, j});
            ld x = f == got.end() ? 0 : f->second;
            auto di = K.rows[i].find(i), dj = K.rows[j].find(j);
            ld tol = tolRel * (di->second + dj->second);
            CHECK(fabsl(x - v) <= tol, "entry", "entry (%zu,%u) is %.17Lg, should be %.17Lg", i, j, x, v);
            if (f != got.end()) got.erase(f);
        }
    for (auto& [k, v] : got) CHECK(v == 0, "stray", "entry (%u,%u) is %.17g, should be zero", k.first, k.second, v);
    for (size_t i = 0; i < n; i++) CHECK(sys.b[i] == 0, "source", "the right-hand side %zu is %.17g", i, sys.b[i]);
}
// groups of coupled unknowns
inline std::vector<int> components(const ref::Sparse& K) {
    std::vector<int> c(K.rows.size(), -1);
    int n = 0;
    for (size_t s = 0; s < c.size(); s++) {
        if (c[s] >= 0) continue;
        std::vector<size_t> todo{s};
        c[s] = n;
        while (!todo.empty()) {
            size_t i = todo.back();
            todo.pop_back();
            for (auto& [j, v] : K.rows[i])
                if (c[j] < 0) c[j] = n, todo.push_back(j);
        }
        n++;
    }
    return c;
}
// direct solution with some unknowns fixed; unknowns without connection to a fixed one get NAN
inline ref::Vec solveFixed(const ref::Sparse& K, const std::map<uint32_t, double>& fixed) {
    size_t n = K.rows.size();
    auto comp = components(K);
    std::vector<char> live(n);
    for (auto& [i, v] : fixed) live[comp[i]] = 1;
    std::vector<int> at(n, -1);
    std::vector<uint32_t> free;
    for (size_t i = 0; i < n; i++)
        if (live[comp[i]] && !fixed.count(i)) at[i] = free.size(), free.push_back(i);
    auto A = ref::zeros(free.size());
    ref::Vec b(free.size(), 0), x;
    for (size_t k = 0; k < free.size(); k++)
        for (auto& [j, v] : K.rows[free[k]]) {
            if (at[j] >= 0) A[k][at[j]] += v;
            else b[k] -= v * fixed.at(j);
        }
    ref::Vec out(n, NAN);
    for (auto& [i, v] : fixed) out[i] = v;
    if (ref::solve(A, b, x))
        for (size_t k = 0; k < free.size(); k++) out[free[k]] = x[k];
    return out;
}
}  // namespace scene
