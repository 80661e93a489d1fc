// generated planar drawings whose faces are known by construction
#pragma once
#include <array>
#include <numeric>
#include "pbt.hpp"
#include <nikfemm.hpp>

namespace scene {
using nikfemm::Vector;
typedef long double ld;
typedef std::vector<Vector> Poly;

inline ld cross(Vector a, Vector b, Vector c) { return ((ld)b.x - a.x) * ((ld)c.y - a.y) - ((ld)b.y - a.y) * ((ld)c.x - a.x); }
inline ld shoelace(const Poly& p) {  // signed area
    ld s = 0;
    for (size_t i = 1; i + 1 < p.size(); i++) s += cross(p[0], p[i], p[i + 1]);
    return s / 2;
}
inline ld segDist(Vector p, Vector a, Vector b) {
    ld dx = (ld)b.x - a.x, dy = (ld)b.y - a.y, l = dx * dx + dy * dy;
    ld t = l > 0 ? (((ld)p.x - a.x) * dx + ((ld)p.y - a.y) * dy) / l : 0;
    t = t < 0 ? 0 : t > 1 ? 1 : t;
    return hypotl(a.x + t * dx - p.x, a.y + t * dy - p.y);
}
inline ld polyDist(Vector p, const Poly& q) {
    ld d = INFINITY;
    for (size_t i = 0; i < q.size(); i++) d = std::min(d, segDist(p, q[i], q[(i + 1) % q.size()]));
    return d;
}
// even-odd rule; for points away from the boundary
inline bool inside(Vector p, const Poly& q) {
    bool in = false;
    for (size_t i = 0, j = q.size() - 1; i < q.size(); j = i++) {
        if ((q[i].y > p.y) != (q[j].y > p.y)) {
            ld c = cross(q[j], q[i], p);
            if ((q[i].y > q[j].y) == (c > 0)) in = !in;
        }
    }
    return in;
}
inline ld diameter(const Poly& p) {
    double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
    for (auto& v : p) x0 = std::min(x0, v.x), x1 = std::max(x1, v.x), y0 = std::min(y0, v.y), y1 = std::max(y1, v.y);
    return hypot(x1 - x0, y1 - y0);
}

struct Box {
    double x0, y0, x1, y1;
    double w() const { return x1 - x0; }
    double h() const { return y1 - y0; }
    Box shrink(double f) const { return {x0 + w() * f, y0 + h() * f, x1 - w() * f, y1 - h() * f}; }
};

enum Kind { RECT, RECTWH, CIRCLE, POLYGON };
struct Face {
    Kind kind;
    Poly poly;              // the outline
    int parent = -1, depth = 0;
    Vector seed;            // a point of the face that is in none of its children
    Vector c;               // circle
    double r = 0;
    int n = 0;
    std::vector<int> children;
    double area = 0;        // of the outline
};
struct Scene {
    std::vector<Face> faces;
    std::vector<int> order;  // the order in which they are drawn
    struct Again {
        int face, shift;
        bool reverse;
    };
    std::vector<Again> again;  // outlines drawn once more at the end, from another vertex or the other way around
    double own(int i) const {
        double a = faces[i].area;
        for (int c : faces[i].children) a -= faces[c].area;
        return a;
    }
    double total() const {
        double a = 0;
        for (auto& f : faces)
            if (f.parent < 0) a += f.area;
        return a;
    }
    // many outlines or vertices, for which other costs are kept low
    bool large() const {
        size_t n = 0;
        for (auto& f : faces) n += f.poly.size();
        return faces.size() > 12 || n > 80;
    }
    // innermost face that contains p, -1 outside; p must not be on an edge
    int faceOf(Vector p) const {
        int best = -1;
        for (size_t i = 0; i < faces.size(); i++)
            if (inside(p, faces[i].poly) && (best < 0 || faces[i].depth > faces[best].depth)) best = i;
        return best;
    }
    ld edgeDist(Vector p) const {
        ld d = INFINITY;
        for (auto& f : faces) d = std::min(d, polyDist(p, f.poly));
        return d;
    }
    double size() const {
        double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
        for (auto& f : faces)
            for (auto& v : f.poly) x0 = std::min(x0, v.x), x1 = std::max(x1, v.x), y0 = std::min(y0, v.y), y1 = std::max(y1, v.y);
        return hypot(x1 - x0, y1 - y0);
    }
    // smallest distance between a vertex and an edge that it is not an end of
    double clearance() const {
        ld d = INFINITY;
        for (auto& f : faces)
            for (auto& v : f.poly)
                for (auto& g : faces)
                    for (size_t i = 0; i < g.poly.size(); i++) {
                        Vector a = g.poly[i], b = g.poly[(i + 1) % g.poly.size()];
                        if (Vector::distance(a, v) < 1e-9 || Vector::distance(b, v) < 1e-9) continue;
                        d = std::min(d, segDist(v, a, b));
                    }
        return d;
    }
    template <class D>
    void draw(D& drawing, int i) const {
        const Face& f = faces[i];
        switch (f.kind) {
            case RECT: drawing.drawRectangle(f.poly[0], f.poly[2]); break;
            case RECTWH: drawing.drawRectangle(f.poly[0], f.poly[2].x - f.poly[0].x, f.poly[2].y - f.poly[0].y); break;
            case CIRCLE: drawing.drawCircle(f.c, f.r, f.n); break;
            default: drawing.drawPolygon(f.poly); break;
        }
    }
    template <class D>
    void drawAll(D& drawing) const {
        for (int i : order) draw(drawing, i);
        for (auto& a : again) {
            auto p = faces[a.face].poly;
            std::rotate(p.begin(), p.begin() + a.shift, p.end());
            if (a.reverse) std::reverse(p.begin(), p.end());
            drawing.drawPolygon(p);
        }
    }
    std::string show() const {
        std::string s;
        static const char* k[] = {"rectangle", "rectangle(w,h)", "circle", "polygon"};
        for (int i : order) {
            const Face& f = faces[i];
            s += pbt::fmt("\n  #%d %s in #%d seed (%.17g,%.17g)", i, k[f.kind], f.parent, f.seed.x, f.seed.y);
            if (f.kind == CIRCLE) s += pbt::fmt(" centre (%.17g,%.17g) r=%.17g n=%d", f.c.x, f.c.y, f.r, f.n);
            else
                for (auto& v : f.poly) s += pbt::fmt(" (%.17g,%.17g)", v.x, v.y);
        }
        for (auto& a : again) s += pbt::fmt("\n  #%d again from vertex %d%s", a.face, a.shift, a.reverse ? ", the other way around" : "");
        return s;
    }
};

struct Opts {
    int maxFaces = 6;
    int maxDepth = 3;
    int maxCirclePts = 14;
    bool circles = true;
    bool singleRoot = false;
    bool grids = true;   // shapes that share edges or vertices
    bool inscribed = true;  // shapes that share corners or edges with the one they are in
    bool rotate = true;
    bool again = true;  // outlines drawn twice
    double many = 0.02;  // how often there are many more shapes, nested more deeply or of more vertices than the limits above
    double minScale = 1e-2, maxScale = 1e2, offset = 10;
};

class Builder {
    pbt::Gen& g;
    Opts o;
    Scene s;
    bool fine = false;  // long outlines

    // fills the box with one shape; returns the box inside it that its children may use
    Box shape(Box b, int parent, int depth, bool needInner) {
        Face f;
        f.parent = parent;
        f.depth = depth;
        double cx = (b.x0 + b.x1) / 2, cy = (b.y0 + b.y1) / 2, R = std::min(b.w(), b.h()) / 2;
        Box in;
        int k = g.draw(o.circles ? 3 : 2);
        if (k == 0) {
            f.kind = g.coin() ? RECT : RECTWH;
            f.poly = {{b.x0, b.y0}, {b.x1, b.y0}, {b.x1, b.y1}, {b.x0, b.y1}};
            in = b.shrink(g.real(0.08, 0.2));
        } else if (k == 1) {
            // star polygon around the centre
            f.kind = POLYGON;
            int n = fine && g.coin() ? 13 + g.draw(150) : 3 + g.size(0, 9);
            double rmin = n <= 3 ? 0.8 : g.real(0.35, 1), ph = g.real(0, 2 * M_PI);
            for (int i = 0; i < n; i++) {
                double a = ph + 2 * M_PI * (i + (n > 3 ? g.real(-0.25, 0.25) : 0)) / n, r = R * g.real(rmin, 1);
                f.poly.push_back({cx + r * cos(a), cy + r * sin(a)});
            }
            double gap = 2 * M_PI * (n > 3 ? 1.5 : 1.0) / n, ri = R * rmin * std::max(0.3, cos(std::min(gap, 2.2) / 2)) * 0.6;
            in = {cx - ri, cy - ri, cx + ri, cy + ri};
            in = in.shrink(0.15);
        } else if (k == 2) {
            // L or U with straight corners, in one of the four orientations
            f.kind = POLYGON;
            double t = g.real(0.25, 0.45), u = g.real(0.25, 0.7);
            std::vector<std::pair<double, double>> q;
            if (g.coin()) q = {{0, 0}, {1, 0}, {1, t}, {t, t}, {t, u + 0.3}, {0, u + 0.3}};
            else q = {{0, 0}, {1, 0}, {1, u + 0.3}, {1 - t / 2, u + 0.3}, {1 - t / 2, t}, {t / 2, t}, {t / 2, u + 0.25}, {0, u + 0.25}};
            bool fx = g.coin(), fy = g.coin();
            auto map = [&](double x, double y) { return Vector(b.x0 + b.w() * (fx ? 1 - x : x), b.y0 + b.h() * (fy ? 1 - y : y)); };
            for (auto& [x, y] : q) f.poly.push_back(map(x, y));
            Vector p = map(0.06, 0.1 * t), r = map(0.94, 0.9 * t);
            in = {std::min(p.x, r.x), std::min(p.y, r.y), std::max(p.x, r.x), std::max(p.y, r.y)};
        } else {
            f.kind = CIRCLE;
            f.c = {cx, cy};
            f.r = R;
            f.n = fine && g.coin() ? 15 + g.draw(150) : 5 + g.draw(std::max(0, o.maxCirclePts - 5));
            double ang = 0, st = 2 * PI / f.n;
            for (int i = 0; i < f.n; i++) ang += st, f.poly.push_back({cx + R * cos(ang), cy + R * sin(ang)});
            double ri = R * cos(M_PI / f.n) * 0.6;
            in = {cx - ri, cy - ri, cx + ri, cy + ri};
        }
        // turn polygons the other way or start them elsewhere
        if (f.kind == POLYGON) {
            if (g.coin(0.3)) std::reverse(f.poly.begin(), f.poly.end());
            std::rotate(f.poly.begin(), f.poly.begin() + g.draw(f.poly.size() - 1), f.poly.end());
        }
        finish(f, in);
        return in;
    }
    void finish(Face& f, Box in) {
        f.area = fabsl(shoelace(f.poly));
        double t = g.real(0, 1);
        switch (g.draw(3)) {
            case 0: f.seed = {in.x0 + t * in.w(), in.y0}; break;
            case 1: f.seed = {in.x0 + t * in.w(), in.y1}; break;
            case 2: f.seed = {in.x0, in.y0 + t * in.h()}; break;
            default: f.seed = {in.x1, in.y0 + t * in.h()}; break;
        }
        if (f.parent >= 0) s.faces[f.parent].children.push_back(s.faces.size());
        s.faces.push_back(f);
    }
    // places shapes in the cells of a box
    void fill(Box b, int parent, int depth, int want) {
        int nx = 1, ny = 1;
        while (nx * ny < want) (b.w() / nx > b.h() / ny ? nx : ny)++;
        std::vector<int> cells(nx * ny);
        std::iota(cells.begin(), cells.end(), 0);
        g.shuffle(cells);
        for (int i = 0; i < want && (int)s.faces.size() < o.maxFaces; i++) {
            int cx = cells[i] % nx, cy = cells[i] / nx;
            Box c{b.x0 + b.w() * cx / nx, b.y0 + b.h() * cy / ny, b.x0 + b.w() * (cx + 1) / nx, b.y0 + b.h() * (cy + 1) / ny};
            c = c.shrink(g.real(0.1, 0.2));
            one(c, parent, depth);
        }
    }
    void one(Box c, int parent, int depth) {
        int id = s.faces.size();
        Box in = shape(c, parent, depth, true);
        if (depth < o.maxDepth && (int)s.faces.size() < o.maxFaces && g.coin(0.55)) fill(in, id, depth + 1, 1 + g.draw(depth == 0 ? 2 : 1));
    }
    // rectangles that share edges, or triangles around a common vertex
    void grid() {
        int nx = 1 + g.draw(3), ny = 1 + g.draw(2);
        while (nx * ny > o.maxFaces) (nx > ny ? nx : ny)--;
        std::vector<double> X(nx + 1), Y(ny + 1);
        for (int i = 1; i <= nx; i++) X[i] = X[i - 1] + g.real(0.4, 1.2);
        for (int i = 1; i <= ny; i++) Y[i] = Y[i - 1] + g.real(0.4, 1.2);
        for (int y = 0; y < ny; y++)
            for (int x = 0; x < nx; x++) {
                Face f;
                Box b{X[x], Y[y], X[x + 1], Y[y + 1]};
                f.kind = g.coin() ? RECT : RECTWH;
                f.poly = {{b.x0, b.y0}, {b.x1, b.y0}, {b.x1, b.y1}, {b.x0, b.y1}};
                if (g.coin(0.3)) {
                    f.kind = POLYGON;
                    if (g.coin()) std::reverse(f.poly.begin(), f.poly.end());
                }
                Box in = b.shrink(0.15);
                int id = s.faces.size();
                finish(f, in);
                if (g.coin(0.2) && (int)s.faces.size() + nx * ny - id - 1 < o.maxFaces) fill(in, id, 1, 1);
            }
    }
    void fan() {
        int n = 3 + g.size(0, std::max(0, std::min(o.maxFaces, 22) - 3));
        bool full = g.coin() && n >= 4;
        double span = full ? 2 * M_PI : g.real(0.12, 0.3) * n, ph = g.real(0, 6);
        if (!full && span > 5) span = 5;
        std::vector<Vector> rim;
        for (int i = 0; i <= n; i++) {
            double a = ph + span * i / n, r = g.real(0.8, 1.2);
            rim.push_back({r * cos(a), r * sin(a)});
        }
        if (full) rim[n] = rim[0];
        for (int i = 0; i < n; i++) {
            Face f;
            f.kind = POLYGON;
            f.poly = {{0, 0}, rim[i], rim[i + 1]};
            Vector c = (rim[i] + rim[i + 1]) / 3;
            finish(f, {c.x, c.y, c.x, c.y});
        }
    }

    // a convex outline with a shape in it that shares a corner, an edge or several with it, and so on
    void inscribe(const Poly& v, int parent, int depth) {
        int n = v.size(), id = s.faces.size();
        Vector c(0, 0);
        for (auto& p : v) c = c + p / n;
        bool child = depth == 0 || (depth < o.maxDepth && (int)s.faces.size() + 1 < o.maxFaces && g.coin());
        if ((int)s.faces.size() + 1 >= o.maxFaces) child = false;
        Face f;
        f.parent = parent, f.depth = depth, f.kind = POLYGON, f.poly = v;
        if (g.coin(0.3)) std::reverse(f.poly.begin(), f.poly.end());
        std::rotate(f.poly.begin(), f.poly.begin() + g.draw(n - 1), f.poly.end());
        if (!child) {
            finish(f, {c.x, c.y, c.x, c.y});
            return;
        }
        int k = n == 3 ? 1 : (int)g.draw(n - 2), i = g.draw(n - 1);
        auto at = [&](int j) { return v[(i + j) % n]; };
        Vector opp = at(k + std::max(1, (n - k) / 2));  // a corner that is not one of the child
        Poly q;
        bool convex = false;
        Vector seed = c + (opp - c) * 0.45;
        if (k == 0) {
            q = {at(0), c + (at(1) - c) * 0.3, c + (at(n - 1) - c) * 0.3};
            convex = true;
            if (n == 4) opp = at(2), seed = c + (opp - c) * 0.45;
        } else {
            for (int j = 0; j <= k; j++) q.push_back(at(j));
            if (k == 1 || g.coin()) q.push_back(c);
            else {
                convex = true;
                Vector o(0, 0);
                int m = 0;
                for (int j = k; j <= n; j++, m++) o = o + at(j);
                seed = o / m;
            }
        }
        finish(f, {seed.x, seed.y, seed.x, seed.y});
        if (convex) inscribe(q, id, depth + 1);
        else {
            Face h;
            h.parent = id, h.depth = depth + 1, h.kind = POLYGON, h.poly = q;
            if (g.coin(0.3)) std::reverse(h.poly.begin(), h.poly.end());
            std::rotate(h.poly.begin(), h.poly.begin() + g.draw(h.poly.size() - 1), h.poly.end());
            Vector m = (at(k / 2) + at(k / 2 + 1)) / 2 * 0.6 + c * 0.4;
            finish(h, {m.x, m.y, m.x, m.y});
        }
    }
    void inscribed() {
        int n = 3 + g.draw(4);
        double ph = g.real(0, 6), e = g.real(0.5, 1);
        Poly v;
        for (int i = 0; i < n; i++) {
            double a = ph + 2 * M_PI * (i + g.real(-0.2, 0.2)) / n;
            v.push_back({cos(a), e * sin(a)});
        }
        if (n == 4 && g.coin()) v = {{-1, -e}, {1, -e}, {1, e}, {-1, e}};
        inscribe(v, -1, 0);
    }

    // shapes beside each other
    void field() {
        if (o.singleRoot) {
            Face f;
            f.kind = RECT;
            f.poly = {{-1, -1}, {2, -1}, {2, 2}, {-1, 2}};
            finish(f, {-0.95, -0.95, 1.95, 1.95});
            fill({-0.9, -0.9, 1.9, 1.9}, 0, 1, 7 + g.size(0, 33));
        } else fill({-1, -1, 2, 2}, -1, 0, 7 + g.size(0, 33));
    }
    // outlines around each other
    void chain() {
        int n = 4 + g.size(0, 14), m = 3 + g.draw(5);
        double ph = g.real(0, 6), e = g.real(0.5, 1);
        Poly v;
        for (int i = 0; i < m; i++) {
            double a = ph + 2 * M_PI * i / m;
            v.push_back({cos(a), e * sin(a)});
        }
        double r = 1;
        for (int d = 0; d < n; d++) {
            double in = d + 1 < n ? r * (n - d - g.real(0.6, 1.2)) / (n - d) : r * 0.3;
            Face f;
            f.kind = POLYGON, f.parent = d - 1, f.depth = d;
            for (auto& p : v) f.poly.push_back(p * r);
            Vector q = v[g.draw(m - 1)] * ((r + in) / 2);
            finish(f, {q.x, q.y, q.x, q.y});
            r = in;
        }
    }

  public:
    Builder(pbt::Gen& g, Opts o) : g(g), o(o) {}
    Scene build() {
        if (o.many > 0 && g.coin(o.many)) {
            int k = g.draw(2);
            if (k == 0) o.maxFaces = 45, field(), g.label("many outlines");
            else if (k == 1) chain(), g.label("nested deeply");
            else fine = true, g.label("outlines of many vertices");
        }
        int t = s.faces.size() ? 99 : o.grids ? g.draw(o.inscribed && o.maxFaces >= 2 && o.maxDepth >= 1 ? 7 : 5) : 0;
        if (t == 99) {
        } else if (t >= 6) inscribed(), g.label("corners and edges shared with the inside");
        else if (t == 4) grid(), g.label("shapes sharing edges");
        else if (t == 5 && o.maxFaces >= 4) fan(), g.label("fan of triangles");
        else if (o.singleRoot || g.coin()) one({-1, -1, -1 + g.real(1, 3), -1 + g.real(1, 3)}, -1, 0), g.label("one outline");
        else fill({-1, -1, -1 + g.real(2, 5), -1 + g.real(2, 5)}, -1, 0, 2 + g.draw(2)), g.label("several outlines");
        int md = 0;
        for (auto& f : s.faces) md = std::max(md, f.depth);
        if (md >= 1) g.label("nested");
        if (md >= 2) g.label("nested twice");
        // place
        double sc = g.coin(0.4) ? 1 : g.logreal(o.minScale, o.maxScale);
        double an = o.rotate && g.coin(0.5) ? g.real(0, 2 * M_PI) : 0;
        Vector off = g.coin(0.4) ? Vector(0, 0) : Vector(g.real(-1, 1), g.real(-1, 1)) * (o.offset * sc);
        auto tr = [&](Vector v) { return (an ? v.rotate(an) : v) * sc + off; };
        for (auto& f : s.faces) {
            if (f.kind == CIRCLE) {
                f.c = tr(f.c);
                f.r *= sc;
                f.poly.clear();
                double ang = 0, st = 2 * PI / f.n;
                for (int i = 0; i < f.n; i++) ang += st, f.poly.push_back({f.c.x + f.r * cos(ang), f.c.y + f.r * sin(ang)});
            } else {
                if (an) f.kind = POLYGON;
                for (auto& v : f.poly) v = tr(v);
            }
            f.seed = tr(f.seed);
            f.area = fabsl(shoelace(f.poly));
        }
        s.order.resize(s.faces.size());
        std::iota(s.order.begin(), s.order.end(), 0);
        if (g.coin(0.7)) g.shuffle(s.order);
        if (o.again && g.coin(0.1))
            for (int k = 1 + g.draw(1); k--;) {
                int i = g.draw(s.faces.size() - 1);
                // the vertices of circles are computed; drawn twice they are the same, from elsewhere only nearly
                if (s.faces[i].kind == CIRCLE) continue;
                s.again.push_back({i, (int)g.draw(s.faces[i].poly.size() - 1), g.coin()});
                if (s.again.size() == 1) g.label("outlines drawn again");
            }
        return s;
    }
};

inline Scene make(pbt::Gen& g, Opts o = Opts()) { return Builder(g, o).build(); }
}  // namespace scene
