// which segments a drawing accepts: exact integer oracle on a lattice
#include "scene.hpp"
using namespace nikfemm;
typedef CurrentDensityProp P;
struct I {
    int64_t x, y;
    bool operator==(const I& o) const { return x == o.x && y == o.y; }
};
typedef std::pair<I, I> Seg;
static int64_t cr(I a, I b, I c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static int sg(int64_t v) { return (v > 0) - (v < 0); }
static bool onOpen(I p, const Seg& s) {  // strictly between the ends
    if (cr(s.first, s.second, p)) return false;
    int64_t d = (p.x - s.first.x) * (p.x - s.second.x) + (p.y - s.first.y) * (p.y - s.second.y);
    return d < 0;
}
enum Rel { APART, SHARED, TOUCH, CROSS, OVERLAP };
static Rel rel(const Seg& a, const Seg& b) {
    bool shared = a.first == b.first || a.first == b.second || a.second == b.first || a.second == b.second;
    int d1 = sg(cr(a.first, a.second, b.first)), d2 = sg(cr(a.first, a.second, b.second)), d3 = sg(cr(b.first, b.second, a.first)), d4 = sg(cr(b.first, b.second, a.second));
    bool t1 = onOpen(b.first, a), t2 = onOpen(b.second, a), t3 = onOpen(a.first, b), t4 = onOpen(a.second, b);
    if (shared) return t1 || t2 || t3 || t4 ? TOUCH : SHARED;  // overlap of segments that share an end is not specified
    if (!d1 && !d2) return t1 || t2 || t3 || t4 ? OVERLAP : APART;
    if (t1 || t2 || t3 || t4) return TOUCH;
    return d1 * d2 < 0 && d3 * d4 < 0 ? CROSS : APART;
}

PROPERTY(crossing, 240000, 4500000, "a history of up to 12 polygons with lattice vertices (now and then after up to 196 others), each accepted or rejected by exact integer arithmetic; a case ends at the first T-junction, which is not specified; non-trivial: at least three polygons judged, or a rejected one") {
    int range = 3 + g.draw(27);
    bool exact = g.coin(0.7);
    double sc = exact ? ldexp(1, (int)g.range(-12, 12)) : g.logreal(1e-3, 1e3);
    I off{g.range(-100, 100), g.range(-100, 100)};
    auto real = [&](I p) { return Vector((p.x + off.x) * sc, (p.y + off.y) * sc); };
    Drawing<P> d;
    std::vector<Seg> segs;
    int n = 1 + g.size(0, 11), judged = 0;
    if (g.coin(0.02)) {
        // a field of shapes beside each other that were accepted before
        int w = 2 + g.draw(12), h = 2 + g.draw(12), step = 2 + g.draw(3);
        range = std::max(range, std::max(w, h) * step);
        g.note("%d x %d squares every %d, scale %.17g offset (%d,%d)", w, h, step, sc, (int)off.x, (int)off.y);
        g.label("many shapes");
        for (int x = 0; x < w; x++)
            for (int y = 0; y < h; y++) {
                std::vector<I> p = {{x * step, y * step}, {x * step + 1, y * step}, {x * step + 1, y * step + 1}, {x * step, y * step + 1}};
                d.drawRectangle(real(p[0]), real(p[2]));
                for (int i = 0; i < 4; i++) segs.push_back({p[i], p[(i + 1) % 4]});
            }
    }
    for (int k = 0; k < n; k++) {
        std::vector<I> p;
        bool rect = g.coin(0.25);
        int ext = 1 + g.draw(g.coin() ? 3 : range);
        I o{g.range(-range, range), g.range(-range, range)};
        if (rect) {
            I q{o.x + (g.coin() ? 1 : -1) * g.range(1, ext), o.y + (g.coin() ? 1 : -1) * g.range(1, ext)};
            p = {o, {q.x, o.y}, q, {o.x, q.y}};
        } else {
            int m = 3 + g.draw(2);
            for (int i = 0; i < m; i++) {
                if (!segs.empty() && g.coin(0.1)) p.push_back(g.coin() ? g.pick(segs).first : g.pick(segs).second);
                else p.push_back({o.x + g.range(-ext, ext), o.y + g.range(-ext, ext)});
            }
            for (size_t i = 0; i < p.size(); i++)
                for (size_t j = 0; j < i; j++) ASSUME(!(p[i] == p[j]));
        }
        bool reject = false, unspec = false;
        std::vector<Seg> now = segs;
        std::string why;
        for (size_t i = 0; i < p.size() && !reject && !unspec; i++) {
            Seg s{p[i], p[(i + 1) % p.size()]};
            bool dup = false;
            for (auto& t : now) dup |= (t.first == s.first && t.second == s.second) || (t.first == s.second && t.second == s.first);
            if (dup) continue;
            for (auto& t : now) {
                Rel r = rel(s, t);
                if (r == TOUCH || (r == OVERLAP && !exact)) unspec = true;
                if (r == CROSS || r == OVERLAP) {
                    reject = true;
                    why = pbt::fmt("(%d,%d)-(%d,%d) and (%d,%d)-(%d,%d) %s", (int)s.first.x, (int)s.first.y, (int)s.second.x, (int)s.second.y, (int)t.first.x, (int)t.first.y, (int)t.second.x, (int)t.second.y, r == CROSS ? "cross" : "overlap");
                }
            }
            now.push_back(s);
        }
        std::string t;
        for (auto& v : p) t += pbt::fmt(" (%d,%d)", (int)v.x, (int)v.y);
        g.note("%s%s scale %.17g offset (%d,%d)", rect ? "rectangle" : "polygon", t.c_str(), sc, (int)off.x, (int)off.y);
        if (unspec) break;
        bool thrown = false;
        try {
            std::vector<Vector> q;
            for (auto& v : p) q.push_back(real(v));
            if (rect) d.drawRectangle(q[0], q[2]);
            else d.drawPolygon(q);
        } catch (const std::exception&) {
            thrown = true;
        }
        judged++;
        CHECK(thrown || !reject, "missed", "a polygon was accepted although %s", why.c_str());
        CHECK(!thrown || reject, "refused", "a polygon was refused although none of its edges crosses another");
        g.nontrivial(judged >= 3 || reject);
        g.label(reject ? "rejected" : "accepted");
        if (reject) return;
        segs = now;
    }
}
