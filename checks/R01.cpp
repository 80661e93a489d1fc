// images of fields, drawings and matrices
#include <unistd.h>
#include <opencv2/opencv.hpp>
#include "conduction.hpp"
#include "magnetic.hpp"
using namespace nikfemm;
using namespace scene;

typedef std::array<int, 3> Col;
static const Col BLACK{0, 0, 0}, WHITE{255, 255, 255};
static Col at(const cv::Mat& im, int x, int y) {
    auto p = im.at<cv::Vec3b>(y, x);
    return {p[0], p[1], p[2]};
}
static std::string name(Col c) { return pbt::fmt("(b %d g %d r %d)", c[0], c[1], c[2]); }
// the jet map: blue, cyan, yellow-green, red with straight ramps; position t of 0..1
static bool isJet(Col c, ld t, ld slack) {
    auto clampU = [](ld x) { return x < 0 ? (ld)0 : x > 1 ? (ld)1 : x; };
    auto ok = [&](ld tt) {
        tt = clampU(tt);
        ld r = clampU(4 * tt - 2), gr = clampU(2 - fabsl(4 * tt - 2)), b = clampU(2 - 4 * tt);
        return fabsl(c[2] - 255 * r) <= 1 && fabsl(c[1] - 255 * gr) <= 1 && fabsl(c[0] - 255 * b) <= 1;
    };
    return ok(t) || ok(t - slack) || ok(t + slack);
}
struct Frame {
    ld sx, sy, ox, oy;
    ld x(Vector p) const { return sx * p.x + ox; }
    ld y(Vector p) const { return sy * p.y + oy; }
    Vector px(Vector p) const { return {(double)x(p), (double)y(p)}; }
};
static Frame frame(ld cx, ld cy, ld half, double w, double h) {
    Frame f;
    f.sx = 0.9L * w / (2 * half), f.sy = 0.9L * h / (2 * half);
    f.ox = w / 2 - cx * f.sx, f.oy = h / 2 - cy * f.sy;
    return f;
}
static Frame meshFrame(const MeshData& d, double radius, bool clip, double w, double h) {
    if (clip) return frame(0, 0, 1.1L * radius, w, h);
    ld cx = 0, cy = 0, r = 0;
    for (int i = 0; i < d.numberofpoints; i++) cx += d.pointlist[i].x, cy += d.pointlist[i].y;
    cx /= d.numberofpoints, cy /= d.numberofpoints;
    for (int i = 0; i < d.numberofpoints; i++) r = std::max(r, hypotl(d.pointlist[i].x - cx, d.pointlist[i].y - cy));
    return frame(cx, cy, 1.1L * r, w, h);
}
static bool around(const cv::Mat& im, ld x, ld y, Col c, int r = 1) {
    for (int dy = -r; dy <= r; dy++)
        for (int dx = -r; dx <= r; dx++) {
            int X = (int)floorl(x) + dx, Y = (int)floorl(y) + dy;
            if (X >= 0 && Y >= 0 && X < im.cols && Y < im.rows && at(im, X, Y) == c) return true;
        }
    return false;
}
static bool within(const cv::Mat& im, ld x, ld y) { return x >= 2 && y >= 2 && x < im.cols - 2 && y < im.rows - 2; }
// distance of a point of the image to the two strokes of a cross
static ld crossDist(Vector p, Vector c) { return std::min(segDist(p, {c.x - 5, c.y}, {c.x + 5, c.y}), segDist(p, {c.x, c.y - 5}, {c.x, c.y + 5})); }

static std::vector<double> field(pbt::Gen& g, size_t n) {
    std::vector<double> f(n);
    int k = g.draw(4);
    double s = g.logreal(1e-9, 1e9), o = g.coin() ? 0 : g.real(-3, 3) * s;
    for (size_t i = 0; i < n; i++) {
        if (k == 0) f[i] = o + s * i / n;
        else if (k == 1) f[i] = o + s * (g.coin(0.05) ? 1e6 : 1) * g.real(-1, 1);  // outliers
        else if (k == 2) f[i] = o + s * g.draw(3);                                 // many equal values
        else f[i] = o + s * g.real(-1, 1);
    }
    if (k == 4) f = std::vector<double>(n, o);
    return f;
}
// position of a value in the colour range of a field, from the tenth to the ninetieth percentile
struct Range {
    ld lo, hi;
    Range(std::vector<double> f) {
        std::sort(f.begin(), f.end());
        lo = f[(size_t)(0.1 * f.size())], hi = f[(size_t)(0.9 * f.size())];
    }
    bool flat() const { return !(hi > lo); }
    ld t(double v) const { return (v - lo) / (hi - lo); }
    ld slack() const { return 1e-15L * std::max(fabsl(lo), fabsl(hi)) / (hi - lo) + 1e-6L; }
};

// a mesh of either kind
struct Subject {
    std::string what;
    Layer L;
    MagScene M;
    CurrentDensityMesh cm;
    std::unique_ptr<MagnetostaticSimulation> ms;
    bool clip = false;
};
template <class M, class F>
static void onMesh(M& mesh, F f) {
    f(mesh);
}
static bool prepare(pbt::Gen& g, Subject& s, int maxTri) {
    Opts o;
    o.maxFaces = 4, o.maxCirclePts = 10;
    if (g.coin(0.7)) {
        o.minScale = 1e-3, o.maxScale = 1e3;
        s.L = makeLayer(g, o);
        auto P = condParams(g, s.L.S.total(), maxTri);
        g.note("area %.17g angle %d %s", P.area, P.angle, s.L.show().c_str());
        s.L.draw(s.cm);
        s.cm.mesh(P.area, P.angle);
        s.cm.computeEpsilon();
        return true;
    }
    o.minScale = 0.5, o.maxScale = 20;
    s.M = makeMag(g, o, MagOpts(), maxTri);
    g.note("%s", s.M.show().c_str());
    s.ms = std::make_unique<MagnetostaticSimulation>();
    s.M.draw(*s.ms);
    s.M.generate(*s.ms);
    s.clip = true;
    return true;
}
struct Options {
    int w, h;
    bool mesh, regions, square;
    Col back;
};
static Options options(pbt::Gen& g) {
    Options p;
    p.w = 40 + g.draw(700), p.h = g.coin() ? p.w : 40 + (int)g.draw(700);
    if (g.coin(0.02)) p.w = 40 + g.draw(3000), p.h = 40 + g.draw(3000), g.label("large image");
    p.mesh = g.coin(0.3), p.regions = g.coin(0.3);
    p.back = {(int)g.draw(255), 1 + (int)g.draw(253), (int)g.draw(255)};
    if (g.coin(0.5)) p.back = {7, 77, 177};  // no colour of the map
    g.note(" %dx%d mesh %d regions %d", p.w, p.h, p.mesh, p.regions);
    return p;
}
static cv::Mat canvas(const Options& p) { return cv::Mat(p.h, p.w, CV_8UC3, cv::Scalar(p.back[0], p.back[1], p.back[2])); }
template <class M>
static std::string state(const M& m) {
    std::string s;
    auto put = [&](const void* p, size_t n) { s.append((const char*)p, n); };
    for (int i = 0; i < m.data.numberofpoints; i++) put(&m.data.pointlist[i], sizeof m.data.pointlist[i]);
    for (int i = 0; i < m.data.numberoftriangles; i++) put(m.data.trianglelist[i].verts, sizeof m.data.trianglelist[i].verts), put(&m.data.triangleattributelist[i], sizeof m.data.triangleattributelist[i]);
    put(m.drawing.points.data(), m.drawing.points.size() * sizeof(Vector));
    put(&m.center, sizeof m.center), put(&m.radius, sizeof m.radius), put(&m.epsilon, sizeof m.epsilon);
    s += std::to_string(m.drawing.regions.size()) + " " + std::to_string(m.drawing.segments.size());
    return s;
}

// `far`: the elements that stand for the space around the drawing are shown too; some of them overlap
template <class M>
static void checkElements(pbt::Gen& g, M& m, const Options& p, bool clip, bool far = false) {
    auto& d = m.data;
    auto f = field(g, d.numberoftriangles), f0 = f;
    Range R(f);
    auto im = canvas(p);
    auto st = state(m);
    m.ElemScalarPlotRend(&im, p.w, p.h, f, p.mesh, p.regions, clip);
    CHECK(state(m) == st && f == f0, "changed", "plotting changed the mesh or the field");
    auto F = meshFrame(d, m.radius, clip, p.w, p.h);
    int seen = 0, flatSeen = 0;
    Col flat{};
    std::vector<Vector> crosses;
    if (p.regions)
        for (auto& r : m.drawing.regions) crosses.push_back(F.px(r.first));
    for (auto& c : crosses)
        if (within(im, c.x, c.y)) CHECK(around(im, c.x, c.y, WHITE), "region", "the mark of the region at pixel (%.1f,%.1f) is not there", c.x, c.y);
    auto clear = [&](Vector q) {
        for (auto& c : crosses)
            if (crossDist(q, c) < 3) return false;
        return true;
    };
    for (int i = 0; i < d.numberoftriangles; i++) {
        auto& t = d.trianglelist[i].verts;
        Vector a[3];
        bool shown = true;
        for (int k = 0; k < 3; k++) a[k] = F.px(d.pointlist[t[k]]), shown &= !clip || d.pointlist[t[k]].norm() < m.radius * (1 + 1e-9);
        if (!shown) continue;
        Vector c((a[0].x + a[1].x + a[2].x) / 3, (a[0].y + a[1].y + a[2].y) / 3);
        if (!within(im, c.x, c.y)) continue;
        Vector q(floor(c.x), floor(c.y));
        ld e = INFINITY;
        for (int k = 0; k < 3; k++) e = std::min(e, segDist(q, a[k], a[(k + 1) % 3]));
        if (e < 3.5L || !clear(q)) continue;
        if (far) {
            bool covered = false;
            for (int j = 0; j < d.numberoftriangles && !covered; j++) {
                auto& u = d.trianglelist[j].verts;
                Poly tri{F.px(d.pointlist[u[0]]), F.px(d.pointlist[u[1]]), F.px(d.pointlist[u[2]])};
                covered = j != i && (inside(q, tri) || polyDist(q, tri) < 3);
            }
            if (covered) continue;
        }
        seen++;
        Col col = at(im, q.x, q.y);
        if (R.flat()) {
            if (f[i] != R.lo) continue;
            if (!flatSeen++) flat = col;
            CHECK(col == flat, "constant", "elements of the same value are %s and %s", name(flat).c_str(), name(col).c_str());
        } else
            CHECK(isJet(col, R.t(f[i]), R.slack()), "colour", "element %d, value %.17g at %.6Lg of the range, is %s at the pixel (%g,%g)", i, f[i], R.t(f[i]), name(col).c_str(), q.x, q.y);
    }
    // drawn segments are white, other edges black when asked for
    std::set<Edge> done;
    for (auto& s : m.drawing.segments) {
        Vector a = m.drawing.points[s.p1], b = m.drawing.points[s.p2];
        for (double t : {0.13, 0.5, 0.81}) {
            Vector q = F.px(a * (1 - t) + b * t);
            if (within(im, q.x, q.y)) CHECK(around(im, q.x, q.y, WHITE, 2), "segment", "no line at pixel (%.1f,%.1f) of segment (%g,%g)-(%g,%g)", q.x, q.y, a.x, a.y, b.x, b.y);
        }
    }
    int edges = 0;
    for (auto& [ed, ts] : edgesOf(d)) {
        Vector a = d.pointlist[ed.first], b = d.pointlist[ed.second];
        if (clip && std::max(a.norm(), b.norm()) > m.radius * (1 - 1e-9)) continue;
        Vector A = F.px(a), B = F.px(b), q((A.x + B.x) / 2, (A.y + B.y) / 2);
        if (!within(im, q.x, q.y) || !clear(q)) continue;
        ld sd = INFINITY;
        for (auto& s : m.drawing.segments) sd = std::min(sd, segDist(q, F.px(m.drawing.points[s.p1]), F.px(m.drawing.points[s.p2])));
        if (sd < 4) continue;
        // alone: no other edge nearby
        ld away = INFINITY;
        for (uint32_t t : ts)
            for (int k = 0; k < 3; k++) {
                auto& v = d.trianglelist[t].verts;
                if (edge(v[k], v[(k + 1) % 3]) == ed) continue;
                away = std::min(away, segDist(q, F.px(d.pointlist[v[k]]), F.px(d.pointlist[v[(k + 1) % 3]])));
            }
        if (far || away < 6) continue;
        edges++;
        CHECK(around(im, q.x, q.y, BLACK, 2) == p.mesh, "edges", "%s at pixel (%.1f,%.1f) of edge %d-%d", p.mesh ? "no line" : "a line", q.x, q.y, ed.first, ed.second);
    }
    // outside of the mesh the image stays as it was
    int outside = 0;
    if (!clip)
        for (int k = 0; k < 60; k++) {
            Vector q(g.draw(p.w - 1), g.draw(p.h - 1));
            bool in = !clear(q);
            for (int i = 0; i < d.numberoftriangles && !in; i++) {
                auto& t = d.trianglelist[i].verts;
                Poly tri{F.px(d.pointlist[t[0]]), F.px(d.pointlist[t[1]]), F.px(d.pointlist[t[2]])};
                in = inside(q, tri) || polyDist(q, tri) < 4;
            }
            if (in) continue;
            outside++;
            CHECK(at(im, q.x, q.y) == p.back, "background", "the pixel (%g,%g) outside of the mesh is %s", q.x, q.y, name(at(im, q.x, q.y)).c_str());
        }
    if (p.w != p.h) g.label("not square");
    if (R.flat()) g.label("flat field");
    if (p.mesh && edges) g.label("mesh edges");
    if (p.regions && crosses.size()) g.label("regions");
    if (outside) g.label("background");
    g.label(clip ? "magnetostatic" : "conduction");
    g.nontrivial(seen >= 5);
}
// now and then a magnetostatic mesh with all that stands for the space around it
static bool whole(pbt::Gen& g, MagnetostaticMesh& m) {
    bool w = g.coin(0.3);
    if (w) g.note(" not clipped"), g.label("whole magnetostatic mesh");
    if (w && g.coin(0.7)) {
        // the far vertices nearer, so that the rest is more than a few pixels
        double r = m.radius * g.real(1.6, 8);
        g.note(" vertices within %.17g", r);
        for (int i = 0; i < m.data.numberofpoints; i++) {
            auto& p = m.data.pointlist[i];
            if (p.norm() > r) p = p * (r / p.norm());
        }
    }
    return w;
}
PROPERTY(elements, 3000, 40000, "a generated mesh and field of its elements in images of any size, with and without mesh lines and region marks: the pixel at the centre of every element of some size has the colour of its value in the range between the tenth and ninetieth percentile, drawn segments are white, mesh lines black when asked for, the rest is left as it was, nothing of the mesh or field changes; non-trivial: 5 elements of some size") {
    Subject s;
    prepare(g, s, 120);
    auto p = options(g);
    if (s.ms) {
        bool w = whole(g, s.ms->mesh);
        checkElements(g, s.ms->mesh, p, !w, w);
    } else checkElements(g, s.cm, p, false);
}

template <class M>
static void checkNodes(pbt::Gen& g, M& m, const Options& p, bool clip, bool far = false) {
    auto& d = m.data;
    auto f = field(g, d.numberofpoints), f0 = f;
    Range R(f);
    auto im = canvas(p);
    auto st = state(m);
    m.NodeScalarPlotRend(&im, p.w, p.h, f, p.mesh, p.regions, clip);
    CHECK(state(m) == st && f == f0, "changed", "plotting changed the mesh or the field");
    auto F = meshFrame(d, m.radius, clip, p.w, p.h);
    std::vector<Vector> marks;
    if (p.regions)
        for (auto& r : m.drawing.regions) {
            marks.push_back(F.px(r.first));
            if (within(im, marks.back().x, marks.back().y)) CHECK(around(im, marks.back().x, marks.back().y, BLACK), "region", "the mark of the region at pixel (%.1f,%.1f) is not there", marks.back().x, marks.back().y);
        }
    std::vector<std::vector<uint32_t>> of(d.numberofpoints);
    for (int i = 0; i < d.numberoftriangles; i++)
        for (int k = 0; k < 3; k++) of[d.trianglelist[i].verts[k]].push_back(i);
    auto edges = edgesOf(d);
    std::set<int> rim;
    for (auto& [e, ts] : edges)
        if (ts.size() == 1) rim.insert(e.first), rim.insert(e.second);
    int seen = 0, alone = 0, farSeen = 0;
    struct Cell {
        bool known = false, convex = true;
        Poly poly;
        double x0 = INFINITY, x1 = -INFINITY, y0 = INFINITY, y1 = -INFINITY;
    };
    std::vector<Cell> cells;
    for (int i = 0; i < d.numberofpoints; i++) {
        if (of[i].empty()) alone++;
        if (rim.count(i) || of[i].size() < 3 || (clip && d.pointlist[i].norm() > m.radius * (1 - 1e-9))) continue;
        // the cell around a node: its corners are the centres of its triangles
        Vector n = F.px(d.pointlist[i]);
        Poly cell;
        for (uint32_t t : of[i]) cell.push_back(F.px(centroid(d, t)));
        std::sort(cell.begin(), cell.end(), [&](Vector a, Vector b) { return atan2(a.y - n.y, a.x - n.x) < atan2(b.y - n.y, b.x - n.x); });
        bool convex = true;
        for (size_t k = 0; k < cell.size(); k++) convex &= cross(cell[k], cell[(k + 1) % cell.size()], cell[(k + 2) % cell.size()]) > 0;
        Vector q(floor(n.x), floor(n.y));
        if (!convex || !within(im, n.x, n.y) || !inside(q, cell)) continue;
        // a pixel of the cell: half way to a corner, so that the lines of the mesh are not in the way
        Vector best;
        ld room = 0;
        for (size_t k = 0; k < cell.size(); k++)
            for (double t : {0.0, 0.3, 0.5, 0.7}) {
                Vector c(floor(n.x + (cell[k].x - n.x) * t), floor(n.y + (cell[k].y - n.y) * t));
                ld e = polyDist(c, cell);
                if (!inside(c, cell) || !within(im, c.x, c.y)) continue;
                if (p.mesh)
                    for (uint32_t tr : of[i])
                        for (int z = 0; z < 3; z++) e = std::min(e, segDist(c, F.px(d.pointlist[d.trianglelist[tr].verts[z]]), F.px(d.pointlist[d.trianglelist[tr].verts[(z + 1) % 3]])));
                for (auto& mk : marks) e = std::min(e, (ld)Vector::distance(mk, c) - 6);
                if (e > room) room = e, best = c;
            }
        if (room < 3.5L) continue;
        // the neighbours may be drawn over it when their cells are not convex
        bool covered = false;
        std::set<int> near;
        if (!far)
            for (uint32_t t : of[i])
                for (int k = 0; k < 3; k++) near.insert(d.trianglelist[t].verts[k]);
        else
            for (int j = 0; j < d.numberofpoints; j++) near.insert(j);
        for (int j : near) {
            if (j == i || of[j].empty()) continue;
            if (cells.empty()) cells.resize(d.numberofpoints);
            auto& o = cells[j];
            if (!o.known) {
                // drawn by angle around their middle, in whole pixels
                o.known = true;
                Vector nj(0, 0);
                for (uint32_t u : of[j]) o.poly.push_back(F.px(centroid(d, u))), nj += o.poly.back();
                nj = nj / o.poly.size();
                auto& q = o.poly;
                std::sort(q.begin(), q.end(), [&](Vector a, Vector b) { return atan2(a.y - nj.y, a.x - nj.x) < atan2(b.y - nj.y, b.x - nj.x); });
                for (size_t z = 0; z < q.size(); z++) {
                    o.convex &= cross(q[z], q[(z + 1) % q.size()], q[(z + 2) % q.size()]) > 0;
                    o.x0 = std::min(o.x0, q[z].x), o.x1 = std::max(o.x1, q[z].x), o.y0 = std::min(o.y0, q[z].y), o.y1 = std::max(o.y1, q[z].y);
                }
            }
            if (o.poly.size() < 3 || best.x < o.x0 - 4 || best.x > o.x1 + 4 || best.y < o.y0 - 4 || best.y > o.y1 + 4) continue;
            if (!o.convex || inside(best, o.poly) || polyDist(best, o.poly) < 3) covered = true;
        }
        if (covered) continue;
        seen++, farSeen += far && d.pointlist[i].norm() > m.radius;
        if (R.flat()) continue;
        Col col = at(im, best.x, best.y);
        CHECK(isJet(col, R.t(f[i]), R.slack()), "colour", "node %d at pixel (%g,%g), value %.17g at %.6Lg of the range, is %s at the pixel (%g,%g) of its cell", i, n.x, n.y, f[i], R.t(f[i]), name(col).c_str(), best.x, best.y);
    }
    // cells on the border too are painted with something
    int border = 0;
    if (p.back == Col{7, 77, 177})
        for (int i = 0; i < d.numberofpoints; i++) {
            if (of[i].size() < 3 || (!far && !rim.count(i)) || (clip && d.pointlist[i].norm() > m.radius * (1 - 1e-9))) continue;
            Poly cell;
            Vector mid(0, 0);
            for (uint32_t t : of[i]) cell.push_back(F.px(centroid(d, t))), mid += cell.back();
            mid = mid / cell.size();
            std::sort(cell.begin(), cell.end(), [&](Vector a, Vector b) { return atan2(a.y - mid.y, a.x - mid.x) < atan2(b.y - mid.y, b.x - mid.x); });
            bool convex = true;
            for (size_t k = 0; k < cell.size(); k++) convex &= cross(cell[k], cell[(k + 1) % cell.size()], cell[(k + 2) % cell.size()]) > 0;
            Vector q(floor(mid.x), floor(mid.y));
            if (!convex || !within(im, q.x, q.y) || !inside(q, cell) || polyDist(q, cell) < 3) continue;
            border++, farSeen += far && d.pointlist[i].norm() > m.radius * 1.01;
            CHECK(at(im, q.x, q.y) != p.back, "border", "nothing is drawn at the pixel (%g,%g) of the cell of node %d on the border", q.x, q.y, i);
        }
    if (border) g.label("cells on the border");
    int lines = 0;
    if (p.mesh)
        for (auto& [ed, ts] : edges) {
            Vector a = d.pointlist[ed.first], b = d.pointlist[ed.second];
            if (clip && std::max(a.norm(), b.norm()) > m.radius * (1 - 1e-9)) continue;
            Vector A = F.px(a), B = F.px(b);
            for (double t : {0.2, 0.5, 0.7}) {
                Vector q(A.x * (1 - t) + B.x * t, A.y * (1 - t) + B.y * t);
                if (!within(im, q.x, q.y)) continue;
                lines++;
                CHECK(around(im, q.x, q.y, BLACK, 2), "edges", "no line at pixel (%.1f,%.1f) of edge %d-%d", q.x, q.y, ed.first, ed.second);
            }
        }
    if (alone) g.label("nodes without elements");
    if (farSeen) g.label("cells outside of the circle");
    if (lines) g.label("mesh edges");
    if (marks.size()) g.label("regions");
    g.label(clip ? "magnetostatic" : "conduction");
    g.nontrivial(seen >= 3);
}
PROPERTY(nodes, 3000, 40000, "a generated mesh and field of its nodes, some nodes without elements: the cell around every inner node of some size has the colour of its value, mesh lines are black when asked for, nothing changes and nothing crashes; non-trivial: 3 cells of some size") {
    Subject s;
    Opts o;
    if (g.coin(0.8)) {
        prepare(g, s, 90);
    } else {
        // points outside of the conductors belong to no element
        o.maxFaces = 3;
        s.L = makeLayer(g, o);
        s.L.draw(s.cm);
        Vector far(0, 0);
        for (auto& f : s.L.S.faces)
            for (auto& v : f.poly) far.x = std::max(far.x, v.x), far.y = std::max(far.y, v.y);
        int n = 1 + g.draw(3);
        for (int i = 0; i < n; i++) s.cm.drawing.drawPoint(far + Vector(s.L.S.size() * (0.1 + g.real(0, 0.5)), s.L.S.size() * (0.1 + 0.1 * i)));
        g.note("%d points outside of %s", n, s.L.show().c_str());
        s.cm.mesh(s.L.S.total() / 40, 20);
        s.cm.computeEpsilon();
    }
    auto p = options(g);
    if (s.ms) {
        bool w = whole(g, s.ms->mesh);
        checkNodes(g, s.ms->mesh, p, !w, w);
    } else checkNodes(g, s.cm, p, false);
}

PROPERTY(drawings, 3000, 40000, "a generated drawing in images of any size: all of its segments, points and regions are there at the place that scales the drawing to nine tenths of the image and centres it, and nothing else; non-trivial: 6 segments") {
    Opts o;
    o.maxFaces = 6;
    o.minScale = 1e-4, o.maxScale = 1e5, o.offset = 3;
    auto S = make(g, o);
    Drawing<CurrentDensityProp> D;
    S.drawAll(D);
    bool regions = g.coin(0.7);
    if (regions)
        for (auto& f : S.faces) D.drawRegion(f.seed, {1});
    auto p = options(g);
    g.note("%s", S.show().c_str());
    double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
    for (auto& f : S.faces)
        for (auto& v : f.poly) x0 = std::min(x0, v.x), x1 = std::max(x1, v.x), y0 = std::min(y0, v.y), y1 = std::max(y1, v.y);
    auto F = frame(((ld)x0 + x1) / 2, ((ld)y0 + y1) / 2, std::max(x1 - x0, y1 - y0) / 2, p.w, p.h);
    auto im = canvas(p);
    auto pts = D.points;
    D.plotRend(&im, p.w, p.h);
    CHECK(pts == D.points, "changed", "plotting changed the drawing");
    const Col RED{0, 0, 255};
    std::vector<Vector> crosses;
    if (regions)
        for (auto& f : S.faces) crosses.push_back(F.px(f.seed));
    for (auto& c : crosses) CHECK(around(im, c.x, c.y, RED), "region", "the mark of the region at pixel (%.1f,%.1f) is not there", c.x, c.y);
    auto onCross = [&](Vector q, ld r) {
        for (auto& c : crosses)
            if (crossDist(q, c) < r) return true;
        return false;
    };
    int segs = 0;
    for (auto& f : S.faces)
        for (size_t i = 0; i < f.poly.size(); i++) {
            Vector a = f.poly[i], b = f.poly[(i + 1) % f.poly.size()];
            segs++;
            for (double t : {0.0, 0.17, 0.4, 0.5, 0.66, 0.9}) {
                Vector q = F.px(Vector(a.x + (b.x - a.x) * t, a.y + (b.y - a.y) * t));
                CHECK(q.x > 0 && q.y > 0 && q.x < p.w && q.y < p.h, "harness", "outside of the image");
                if (onCross(q, 4)) continue;
                CHECK(around(im, q.x, q.y, WHITE, 2), "segment", "no line at pixel (%.1f,%.1f) of (%g,%g)-(%g,%g)", q.x, q.y, a.x, a.y, b.x, b.y);
            }
        }
    int blank = 0;
    for (int k = 0; k < 200; k++) {
        Vector q(g.draw(p.w - 1), g.draw(p.h - 1));
        if (onCross(q, 3)) continue;
        ld e = INFINITY;
        for (auto& f : S.faces) {
            Poly P;
            for (auto& v : f.poly) P.push_back(F.px(v)), e = std::min(e, (ld)Vector::distance(P.back(), q) - 2);
            e = std::min(e, polyDist(q, P));
        }
        if (e < 3) continue;
        blank++;
        CHECK(at(im, q.x, q.y) == p.back, "background", "the pixel (%g,%g), %.1Lf from everything drawn, is %s", q.x, q.y, e, name(at(im, q.x, q.y)).c_str());
    }
    if (regions) g.label("regions");
    if (p.w != p.h) g.label("not square");
    g.nontrivial(segs >= 6 && blank > 10);
}

PROPERTY(nothing, 400, 5000, "images of meshes that have not been generated, or could not be, and of drawings without segments (nothing drawn, single points, regions only): an exception or an image, no crash; non-trivial: something is drawn") {
    CurrentDensityMesh m;
    MagnetostaticSimulation ms;
    bool magnetic = g.coin();
    int n = g.size(0, 4), r = g.size(0, 3);
    double z = g.logreal(1e-3, 1e3);
    auto place = [&] { return Vector((int)g.draw(4) - 2, (int)g.draw(4) - 2) * z; };
    auto draw = [&](auto& D, auto prop) {
        if (g.coin(0.3)) D.drawRectangle(Vector(0, 0) * z, Vector(3, 2) * z), g.label("a rectangle");
        for (int i = 0; i < n; i++) D.drawPoint(place());
        for (int i = 0; i < r; i++) D.drawRegion(place(), prop);
    };
    if (magnetic) draw(ms.mesh.drawing, MagnetostaticProp{0, {0, 0}, 1e-6, {}});
    else draw(m.drawing, CurrentDensityProp{1});
    g.note("%d points, %d regions, size %g", n, r, z);
    auto p = options(g);
    bool fail = g.coin(0.3);
    if (fail) {
        // a limit that cannot be met
        try {
            if (magnetic) ms.mesh.mesh(-1, 20);
            else m.mesh(-1, 20);
        } catch (std::exception&) {
            g.label("failed generation");
        }
    }
    std::vector<double> none;
    auto render = [&](auto& M) {
        auto a = canvas(p), b = canvas(p), c = canvas(p);
        bool clip = g.coin(), edges = g.coin(), regions = g.coin();
        for (int k = 0; k < 3; k++) try {
                if (k == 0) M.NodeScalarPlotRend(&a, p.w, p.h, none, edges, regions, clip);
                if (k == 1) M.ElemScalarPlotRend(&b, p.w, p.h, none, edges, regions, clip);
                if (k == 2) M.drawing.plotRend(&c, p.w, p.h);
            } catch (std::exception& e) {
                g.label("exception");
            }
        return a.cols == p.w && b.rows == p.h && c.cols == p.w;
    };
    CHECK(magnetic ? render(ms.mesh) : render(m), "image", "the image has another size");
    if (n + r == 0) g.label("nothing");
    g.nontrivial(n + r > 0);
}

static bool same(const cv::Mat& a, const cv::Mat& b) {
    if (a.size() != b.size() || a.type() != b.type()) return false;
    for (int y = 0; y < a.rows; y++)
        if (memcmp(a.ptr(y), b.ptr(y), a.cols * a.elemSize())) return false;
    return true;
}
PROPERTY(files, 300, 5000, "fields of numbers and of vectors written to image files: the file has the asked for size and holds the rendered image with the y axis upwards, a field of vectors is shown by its magnitude; matrices: every stored entry has its colour in the range of the entries, other places are black; non-trivial: every case") {
    char dir[] = "/tmp/r01XXXXXX";
    if (!mkdtemp(dir)) abort();
    struct Clean {
        std::string f, d;
        ~Clean() { unlink(f.c_str()), rmdir(d.c_str()); }
    } file{std::string(dir) + "/image.png", dir};
    g.nontrivial(true);
    if (g.coin(0.3)) {
        // a symmetric matrix
        uint32_t n = 1 + g.size(0, 40);
        MatCOOSymmetric<double> A(n);
        std::map<std::pair<uint32_t, uint32_t>, double> ref;
        int k = g.size(0, 120);
        double s = g.logreal(1e-6, 1e6);
        for (uint32_t i = 0; i < n; i++) ref[{i, i}] = A(i, i) = g.coin(0.9) ? s * g.real(-2, 4) : 0;
        for (int i = 0; i < k; i++) {
            uint32_t a = g.draw(n - 1), b = g.draw(n - 1);
            if (a > b) std::swap(a, b);
            double v = s * g.real(-2, 2);
            A(a, b) = v, ref[{a, b}] = v;
        }
        MatCSRSymmetric C(A);
        C.plot(file.f);
        cv::Mat im = cv::imread(file.f, cv::IMREAD_COLOR);
        CHECK(im.rows == (int)n && im.cols == (int)n, "size", "a matrix of %u rows gives an image of %d x %d", n, im.cols, im.rows);
        ld lo = INFINITY, hi = -INFINITY;
        for (auto& [e, v] : ref) lo = std::min(lo, (ld)v), hi = std::max(hi, (ld)v);
        g.label("matrix");
        for (uint32_t i = 0; i < n; i++)
            for (uint32_t j = 0; j < n; j++) {
                auto it = ref.find({std::min(i, j), std::max(i, j)});
                double v = it == ref.end() ? 0 : it->second;
                Col c = at(im, j, i);
                if (v == 0) CHECK(c == BLACK, "matrix", "the empty place %u,%u is %s", i, j, name(c).c_str());
                else if (hi > lo) CHECK(isJet(c, (v - lo) / (hi - lo), 0.005L), "matrix", "entry %u,%u = %g of %Lg..%Lg is %s", i, j, v, lo, hi, name(c).c_str());
            }
        return;
    }
    Subject s;
    prepare(g, s, 60);
    auto p = options(g);
    auto go = [&](auto& m, bool clip) {
        bool nodes = g.coin(), vectors = g.coin(0.4);
        size_t n = nodes ? m.data.numberofpoints : m.data.numberoftriangles;
        auto f = field(g, n);
        std::vector<Vector> v(n);
        if (vectors)
            for (size_t i = 0; i < n; i++) {
                double a = g.real(0, 7);
                f[i] = fabs(f[i]);
                v[i] = Vector(f[i] * cos(a), f[i] * sin(a));
                f[i] = v[i].norm();
            }
        cv::Mat im(p.h, p.w, CV_8UC3, nodes ? cv::Scalar(255, 255, 255) : cv::Scalar(0, 0, 0));
        if (nodes) m.NodeScalarPlotRend(&im, p.w, p.h, f, p.mesh, p.regions, clip);
        else m.ElemScalarPlotRend(&im, p.w, p.h, f, p.mesh, p.regions, clip);
        if (nodes && vectors) m.NodeScalarPlotToFile(p.w, p.h, v, file.f, p.mesh, p.regions, clip);
        else if (nodes) m.NodeScalarPlotToFile(p.w, p.h, f, file.f, p.mesh, p.regions, clip);
        else if (vectors) m.ElemScalarPlotToFile(p.w, p.h, v, file.f, p.mesh, p.regions, clip);
        else m.ElemScalarPlotToFile(p.w, p.h, f, file.f, p.mesh, p.regions, clip);
        cv::Mat got = cv::imread(file.f, cv::IMREAD_COLOR);
        CHECK(got.rows == p.h && got.cols == p.w, "size", "asked for %d x %d, got %d x %d", p.w, p.h, got.cols, got.rows);
        cv::flip(im, im, 0);
        CHECK(same(im, got), "file", "the file of %s%s is not the rendered image", vectors ? "vectors of " : "", nodes ? "nodes" : "elements");
        g.label(nodes ? vectors ? "vectors of nodes" : "nodes" : vectors ? "vectors of elements" : "elements");
    };
    if (s.ms) go(s.ms->mesh, true);
    else go(s.cm, false);
}
