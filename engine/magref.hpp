// finite element reference of magnetostatic systems
#pragma once
#include "dense.hpp"
#include "magnetic.hpp"

namespace scene {
// property of an element: of the face of the drawing it lies in, air outside of the drawing and in the exterior
inline MagnetostaticProp propOf(const MagScene& M, MagnetostaticSimulation& sim, uint32_t i) {
    static const MagnetostaticProp air{0, {0, 0}, MU0, {}};
    auto& d = sim.mesh.data;
    auto& t = d.trianglelist[i].verts;
    double R = sim.mesh.radius;
    for (int k = 0; k < 3; k++)
        if (hypot(d.pointlist[t[k]].x, d.pointlist[t[k]].y) > R * 0.999) return air;  // the drawing ends at two thirds of the radius
    Vector c = centroid(d, i) + sim.mesh.center;
    if (M.S.edgeDist(c) < 1e-9 * M.S.size()) return *sim.mesh.drawing.getRegionPtrFromId(d.triangleattributelist[i]);
    int f = M.S.faceOf(c);
    return f < 0 ? air : M.prop[f];
}
struct MagRef {
    ref::Sparse K;     // with the permeabilities given
    ref::Vec b, bTol;  // sources of currents and magnets, and the size of what cancels in them
    std::set<uint32_t> fixed;
    explicit MagRef(size_t n) : K(n), b(n, 0), bTol(n, 0) {}
};
inline MagRef reference(const std::vector<MagnetostaticProp>& props, const std::vector<double>& mu, const MeshData& d) {
    MagRef r(d.numberofpoints);
    for (int i = 0; i < d.numberoftriangles; i++) {
        auto& t = d.trianglelist[i].verts;
        ld A2 = fabsl(cross(d.pointlist[t[0]], d.pointlist[t[1]], d.pointlist[t[2]]));
        for (int k = 0; k < 3; k++) {
            int a = t[k], b = t[(k + 1) % 3], c = t[(k + 2) % 3];
            Vector pa = d.pointlist[a], pb = d.pointlist[b], pc = d.pointlist[c];
            ld cot = (((ld)pa.x - pc.x) * ((ld)pb.x - pc.x) + ((ld)pa.y - pc.y) * ((ld)pb.y - pc.y)) / A2, w = cot / 2 / mu[i];
            r.K.add(a, b, -w), r.K.add(b, a, -w);
            r.K.add(a, a, w), r.K.add(b, b, w);
            // a third of the current for every vertex
            r.b[a] += (ld)props[i].J * A2 / 6;
            r.bTol[a] += fabsl((ld)props[i].J * A2 / 6);
            // surface current M x n on the edge from a to b, half for each end
            ld side = cross(pa, pb, pc) > 0 ? 1 : -1, nx = ((ld)pb.y - pa.y) * side, ny = -((ld)pb.x - pa.x) * side;  // outwards, as long as the edge
            ld cur = (ld)props[i].M.x * ny - (ld)props[i].M.y * nx, sz = (fabsl(props[i].M.x) + fabsl(props[i].M.y)) * hypotl(nx, ny);
            r.b[a] += cur / 2, r.b[b] += cur / 2;
            r.bTol[a] += sz, r.bTol[b] += sz;
        }
    }
    return r;
}
// the three vertices furthest from the center have no potential; ties: all candidates
inline std::set<uint32_t> furthest(const MeshData& d) {
    std::vector<double> r;
    for (int i = 0; i < d.numberofpoints; i++) r.push_back(hypot(d.pointlist[i].x, d.pointlist[i].y));
    auto s = r;
    std::sort(s.rbegin(), s.rend());
    std::set<uint32_t> c;
    for (int i = 0; i < d.numberofpoints; i++)
        if (r[i] >= s[2] * (1 - 1e-9)) c.insert(i);
    return c;
}
// the rows of the generated system that only say that an unknown is zero
inline std::set<uint32_t> imposed(const System<NonLinearExpression>& sys, std::vector<double>& mu) {
    std::vector<double> diag(sys.A.m, 0), off(sys.A.m, 0);
    for (auto& e : sys.A.elems) {
        uint32_t r = e.first >> 32, c = e.first & 0xffffffff;
        NonLinearExpression x = e.second;
        double v = x.evaluate(mu);
        if (r == c) diag[r] = v;
        else off[r] += fabs(v), off[c] += fabs(v);
    }
    std::set<uint32_t> out;
    for (uint32_t i = 0; i < sys.A.m; i++)
        if (off[i] == 0 && diag[i] == 1) out.insert(i);
    return out;
}
inline ref::Vec solveRef(const MagRef& r) {
    size_t n = r.b.size();
    std::vector<int> at(n, -1);
    std::vector<uint32_t> free;
    for (size_t i = 0; i < n; i++)
        if (!r.fixed.count(i)) at[i] = free.size(), free.push_back(i);
    auto A = ref::zeros(free.size());
    ref::Vec b(free.size(), 0), x, out(n, 0);
    for (size_t k = 0; k < free.size(); k++) {
        b[k] = r.b[free[k]];
        for (auto& [j, v] : r.K.rows[free[k]])
            if (at[j] >= 0) A[k][at[j]] += v;
    }
    if (!ref::solve(A, b, x)) return {};
    for (size_t k = 0; k < free.size(); k++) out[free[k]] = x[k];
    return out;
}
}  // namespace scene
