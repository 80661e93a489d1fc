// meshes of generated scenes and what is known about them
#pragma once
#include <unordered_map>
#include "scene.hpp"

namespace scene {
using namespace nikfemm;

struct Params {
    double area;
    int angle;
    bool refine;
};
// a maximum area that gives a mesh of bounded size, and an angle triangle can guarantee
inline Params params(pbt::Gen& g, const Scene& S, int maxTri = 600) {
    Params p;
    p.area = S.total() / g.logreal(4, maxTri);
    if (g.coin(0.1)) p.area = S.total() * 10;
    p.angle = g.coin(0.3) ? 33 : g.coin(0.2) ? 0 : (int)g.draw(33);
    p.refine = g.coin(0.25);
    return p;
}
inline Vector centroid(const MeshData& d, uint32_t i) {
    auto& t = d.trianglelist[i].verts;
    return {(d.pointlist[t[0]].x + d.pointlist[t[1]].x + d.pointlist[t[2]].x) / 3, (d.pointlist[t[0]].y + d.pointlist[t[1]].y + d.pointlist[t[2]].y) / 3};
}
inline ld triArea(const MeshData& d, uint32_t i) {
    auto& t = d.trianglelist[i].verts;
    return cross(d.pointlist[t[0]], d.pointlist[t[1]], d.pointlist[t[2]]) / 2;
}
typedef std::pair<int, int> Edge;
inline Edge edge(int a, int b) { return {std::min(a, b), std::max(a, b)}; }
inline std::map<Edge, std::vector<uint32_t>> edgesOf(const MeshData& d) {
    std::map<Edge, std::vector<uint32_t>> e;
    for (int i = 0; i < d.numberoftriangles; i++)
        for (int k = 0; k < 3; k++) e[edge(d.trianglelist[i].verts[k], d.trianglelist[i].verts[(k + 1) % 3])].push_back(i);
    return e;
}
// does every pair of adjacent edges of the scene make an angle of at least deg degrees
inline double smallestAngle(const Scene& S) {
    std::vector<std::pair<Vector, std::vector<double>>> at;
    auto add = [&](Vector p, double a) {
        for (auto& x : at)
            if (Vector::distance(x.first, p) < 1e-9) {
                for (double b : x.second)
                    if (fabs(a - b) < 1e-7 || fabs(fabs(a - b) - 2 * M_PI) < 1e-7) return;
                x.second.push_back(a);
                return;
            }
        at.push_back({p, {a}});
    };
    for (auto& f : S.faces)
        for (size_t i = 0; i < f.poly.size(); i++) {
            Vector p = f.poly[i], q = f.poly[(i + 1) % f.poly.size()];
            add(p, atan2(q.y - p.y, q.x - p.x));
            add(q, atan2(p.y - q.y, p.x - q.x));
        }
    double mn = 10;
    for (auto& [p, v] : at) {
        std::sort(v.begin(), v.end());
        for (size_t i = 0; i < v.size(); i++) mn = std::min(mn, i + 1 < v.size() ? v[i + 1] - v[i] : v[0] + 2 * M_PI - v[i]);
    }
    return mn * 180 / M_PI;
}
// the mesh is a triangulation: valid indices, proper triangles, two triangles per edge on opposite sides, all vertices used
inline std::map<Edge, std::vector<uint32_t>> checkConforming(const MeshData& d) {
    CHECK(d.numberoftriangles > 0 && d.numberofpoints >= 3, "empty", "%d triangles and %d points", d.numberoftriangles, d.numberofpoints);
    std::vector<char> used(d.numberofpoints);
    for (int i = 0; i < d.numberofpoints; i++) CHECK(std::isfinite(d.pointlist[i].x) && std::isfinite(d.pointlist[i].y), "nonfinite", "vertex %d is (%g,%g)", i, d.pointlist[i].x, d.pointlist[i].y);
    for (int i = 0; i < d.numberoftriangles; i++) {
        auto& t = d.trianglelist[i].verts;
        for (int k = 0; k < 3; k++) {
            CHECK(t[k] >= 0 && t[k] < d.numberofpoints, "index", "triangle %d has the vertex %d of %d", i, t[k], d.numberofpoints);
            used[t[k]] = 1;
        }
        CHECK(t[0] != t[1] && t[1] != t[2] && t[0] != t[2], "degenerate", "triangle %d has the vertices %d %d %d", i, t[0], t[1], t[2]);
        CHECK(triArea(d, i) != 0, "degenerate", "triangle %d has no area", i);
    }
    for (int i = 0; i < d.numberofpoints; i++) CHECK(used[i], "dangling", "vertex %d (%.17g,%.17g) belongs to no triangle", i, d.pointlist[i].x, d.pointlist[i].y);
    auto e = edgesOf(d);
    for (auto& [k, v] : e) CHECK(v.size() <= 2, "edge", "edge %d-%d belongs to %zu triangles", k.first, k.second, v.size());
    return e;
}
inline int opposite(const MeshData& d, uint32_t t, Edge e) {
    for (int k = 0; k < 3; k++) {
        int v = d.trianglelist[t].verts[k];
        if (v != e.first && v != e.second) return v;
    }
    return -1;
}
}  // namespace scene
