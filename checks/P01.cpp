// the Python module against the library: the same histories of calls on both, with equal outcomes
#include "py.hpp"
using namespace nikfemm;
using namespace scene;

// one simulation in Python and its twin in C++
struct Twin {
    py::Ref sim;
    std::unique_ptr<MultiLayerCurrentDensitySimulation> model;
    py::Ref sys;
    std::unique_ptr<System<double>> msys;
    bool stale = false;  // the last generation failed, what it left behind is not specified
};
static double at(PyObject* t, int i) { return PyFloat_AsDouble(PyTuple_GetItem(t, i)); }
static long whole(PyObject* t, int i) {
    PyObject* o = PyTuple_GetItem(t, i);
    CHECK(o && PyLong_Check(o), "index type", "%s instead of an integer", py::str(o).c_str());
    return PyLong_AsLong(o);
}
static void tuple(PyObject* o, int n, const char* what) { CHECK(o && PyTuple_Check(o) && PyTuple_Size(o) == n, "shape", "%s is %s, should have %d elements", what, py::str(o).c_str(), n); }
static void list(PyObject* o, size_t n, const char* what) { CHECK(o && PyList_Check(o) && PyList_Size(o) == (Py_ssize_t)n, "shape", "%s is %s with %zd elements, should be a list of %zu", what, py::str(o).c_str(), o ? PyObject_Size(o) : -1, n); }
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

static bool agree(const py::Out& o, const std::string& err, const char* what) {
    CHECK(o.error != "value and error" && o.error != "no value and no error" && o.error != "SystemError", "protocol", "%s: %s %s", what, o.error.c_str(), o.text.c_str());
    CHECK(o.ok() == err.empty(), "outcome", "%s: Python %s%s, C++ %s", what, o.ok() ? "succeeds" : o.error.c_str(), o.text.c_str(), err.empty() ? "succeeds" : err.c_str());
    return o.ok();
}
template <class F>
static std::string attempt(F f) {
    try {
        f();
        return "";
    } catch (std::exception& e) {
        return std::string("error: ") + e.what();
    }
}
static void generate(pbt::Gen& g, Twin& t, const Params& P, bool defaults = true) {
    int k = defaults ? g.draw(3) : 2 + g.draw(1);
    bool refine = k < 1 ? true : P.refine;
    double area = k < 2 ? 1 : P.area, angle = k < 3 ? 33 : P.angle;
    g.note(" generate_system with %d arguments: %d %.17g %g", k, refine, area, angle);
    py::Ref a(PyTuple_New(k));
    if (k > 0) PyTuple_SetItem(a, 0, PyBool_FromLong(refine));
    if (k > 1) PyTuple_SetItem(a, 1, py::num(area, g.coin()).o), Py_INCREF(PyTuple_GetItem(a, 1));
    if (k > 2) PyTuple_SetItem(a, 2, py::num(angle, g.coin()).o), Py_INCREF(PyTuple_GetItem(a, 2));
    auto o = py::call(t.sim, "generate_system", a);
    auto& M = *t.model;
    auto err = attempt([&] { t.msys = std::make_unique<System<double>>(M.generateSystem(refine, area, angle)); });
    if (!agree(o, err, "generate_system")) {
        t.stale = true;
        g.label("generation fails");
        return;
    }
    t.stale = false;
    g.label("generation");
    tuple(o.value, 3, "the result of generate_system");
    t.sys = py::borrowed(PyTuple_GetItem(o.value, 0));
    PyObject *tr = PyTuple_GetItem(o.value, 1), *ve = PyTuple_GetItem(o.value, 2);
    size_t n = 0;
    for (auto& m : M.meshes) n += m.data.numberofpoints;
    list(tr, M.meshes.size(), "the list of triangles");
    list(ve, n, "the list of vertices");
    size_t off = 0;
    for (size_t l = 0; l < M.meshes.size(); l++) {
        auto& d = M.meshes[l].data;
        PyObject* lt = PyList_GetItem(tr, l);
        list(lt, d.numberoftriangles, "the list of triangles of a layer");
        for (int i = 0; i < d.numberoftriangles; i++) {
            PyObject* e = PyList_GetItem(lt, i);
            tuple(e, 3, "a triangle");
            for (int j = 0; j < 3; j++) CHECK(whole(e, j) == (long)(d.trianglelist[i].verts[j] + off), "triangle", "layer %zu triangle %d: %s, should start at %zu", l, i, py::str(e).c_str(), off);
        }
        for (int i = 0; i < d.numberofpoints; i++) {
            PyObject* e = PyList_GetItem(ve, off + i);
            tuple(e, 2, "a vertex");
            CHECK(same(at(e, 0), d.pointlist[i].x) && same(at(e, 1), d.pointlist[i].y), "vertex", "layer %zu vertex %d: %s, should be (%.17g,%.17g)", l, i, py::str(e).c_str(), d.pointlist[i].x, d.pointlist[i].y);
        }
        off += d.numberofpoints;
    }
}
static void solve(pbt::Gen& g, Twin& t) {
    g.note(" solve");
    py::Ref a(Py_BuildValue("(O)", t.sys.o));
    auto o = py::call(t.sim, "solve", a);
    auto& M = *t.model;
    std::vector<double> V, P;
    auto err = attempt([&] { V = M.solve(*t.msys), P = M.computePowerDensity(V); });
    if (!agree(o, err, "solve")) return;
    g.label("solution");
    tuple(o.value, 3, "the result of solve");
    PyObject *vo = PyTuple_GetItem(o.value, 0), *tr = PyTuple_GetItem(o.value, 1), *po = PyTuple_GetItem(o.value, 2);
    size_t nt = 0;
    for (auto& m : M.meshes) nt += m.data.numberoftriangles;
    list(vo, V.size(), "the list of voltages");
    list(tr, nt, "the list of triangles");
    list(po, P.size(), "the list of powers");
    CHECK(P.size() == nt, "powers", "%zu powers for %zu triangles", P.size(), nt);
    size_t off = 0, toff = 0;
    for (size_t l = 0; l < M.meshes.size(); l++) {
        auto& d = M.meshes[l].data;
        for (int i = 0; i < d.numberofpoints; i++) {
            PyObject* e = PyList_GetItem(vo, off + i);
            tuple(e, 4, "a voltage");
            CHECK(whole(e, 0) == (long)l && same(at(e, 1), d.pointlist[i].x) && same(at(e, 2), d.pointlist[i].y) && same(at(e, 3), V[off + i]), "voltage", "%s, should be (%zu, %.17g, %.17g, %.17g)", py::str(e).c_str(), l, d.pointlist[i].x, d.pointlist[i].y, V[off + i]);
        }
        for (int i = 0; i < d.numberoftriangles; i++) {
            PyObject* e = PyList_GetItem(tr, toff + i);
            tuple(e, 4, "a triangle");
            CHECK(whole(e, 0) == (long)l, "layer", "triangle %s of layer %zu", py::str(e).c_str(), l);
            for (int j = 0; j < 3; j++) CHECK(whole(e, j + 1) == (long)(d.trianglelist[i].verts[j] + off), "triangle", "layer %zu triangle %d: %s, should start at %zu", l, i, py::str(e).c_str(), off);
            PyObject* p = PyList_GetItem(po, toff + i);
            tuple(p, 2, "a power");
            CHECK(same(at(p, 1), P[toff + i]), "power", "triangle %zu: %s, should be %.17g", toff + i, py::str(p).c_str(), P[toff + i]);
        }
        off += d.numberofpoints, toff += d.numberoftriangles;
    }
}
static void voltage(pbt::Gen& g, Twin& t, Vector p, double V, size_t l) {
    g.note(" set_voltage (%.17g,%.17g) %.17g layer %zu", p.x, p.y, V, l);
    py::Ref a(Py_BuildValue("(OOOk)", t.sys.o, py::point(p, g.coin()).o, py::num(V, g.coin()).o, (unsigned long)l));
    auto o = py::call(t.sim, "set_voltage", a);
    auto err = attempt([&] { t.model->setVoltage(*t.msys, p, V, l); });
    agree(o, err, "set_voltage");
}
static double volts(pbt::Gen& g) {
    if (g.coin(0.05)) return g.label("voltages beyond 32 bits"), floor(g.logreal(1e9, 1e25)) * (g.coin() ? 1 : -1);
    return g.coin(0.3) ? (double)(int)g.draw(10) - 5 : g.real(-10, 10);
}
static void drawPolygon(pbt::Gen& g, Twin& t, const Poly& q, size_t l) {
    g.note(" draw_polygon of %zu points on layer %zu", q.size(), l);
    py::Ref pts(PyList_New(0));
    bool ints = g.coin();
    for (auto& v : q) PyList_Append(pts, py::point(v, ints));
    py::Ref a(Py_BuildValue("(Ok)", pts.o, (unsigned long)l));
    auto o = py::call(t.sim, "draw_polygon", a);
    agree(o, attempt([&] { t.model->meshes[l].drawing.drawPolygon(q); }), "draw_polygon");
}
static void drawRectangle(pbt::Gen& g, Twin& t, Vector p, Vector q, size_t l) {
    g.note(" draw_rectangle (%.17g,%.17g) (%.17g,%.17g) layer %zu", p.x, p.y, q.x, q.y, l);
    py::Ref a(Py_BuildValue("(OOk)", py::point(p, g.coin()).o, py::point(q, g.coin()).o, (unsigned long)l));
    auto o = py::call(t.sim, "draw_rectangle", a);
    agree(o, attempt([&] { t.model->meshes[l].drawing.drawRectangle(p, q); }), "draw_rectangle");
}
static void drawRegion(pbt::Gen& g, Twin& t, Vector p, double s, size_t l) {
    g.note(" draw_region (%.17g,%.17g) %.17g layer %zu", p.x, p.y, s, l);
    py::Ref a(Py_BuildValue("(OdK)", py::point(p, g.coin()).o, s, (unsigned long long)l));
    auto o = py::call(t.sim, "draw_region", a);
    agree(o, attempt([&] { t.model->meshes[l].drawing.drawRegion(p, {s}); }), "draw_region");
}
static void connect(pbt::Gen& g, Twin& t, const CurrentDensityInterconnection& c) {
    g.note(" add_interconnection (%.17g,%.17g) (%.17g,%.17g) %zu %zu %.17g", c.p1.x, c.p1.y, c.p2.x, c.p2.y, (size_t)c.layer1_id, (size_t)c.layer2_id, c.R);
    py::Ref a(Py_BuildValue("(OOkkO)", py::point(c.p1, g.coin()).o, py::point(c.p2, g.coin()).o, (unsigned long)c.layer1_id, (unsigned long)c.layer2_id, py::num(c.R, g.coin()).o));
    auto o = py::call(t.sim, "add_interconnection", a);
    agree(o, attempt([&] { t.model->interconnections.push_back(c); }), "add_interconnection");
}
static Twin construct(pbt::Gen& g, const std::vector<double>& depths) {
    Twin t;
    py::Ref d(PyList_New(0));
    for (double x : depths) PyList_Append(d, py::num(x, g.coin()));
    py::Ref a(Py_BuildValue("(nO)", (Py_ssize_t)depths.size(), d.o));
    auto o = py::call(py::module(), "MultiLayerCurrentDensitySimulation", a);
    std::string err = attempt([&] { t.model = std::make_unique<MultiLayerCurrentDensitySimulation>(depths.size(), depths); });
    agree(o, err, "MultiLayerCurrentDensitySimulation");
    t.sim = o.value;
    return t;
}

PROPERTY_H(problems, 600, 8000, "whole problems: layers, drawings, regions, interconnections, voltages, possibly two simulations at once, solved, changed and solved again; equal vertices, triangles, voltages and powers in the documented shape; non-trivial: several layers or a second generation", 200) {
    py::module();
    int sims = g.coin(0.25) ? 2 : 1;
    std::vector<Stack> st;
    std::vector<Twin> tw;
    for (int i = 0; i < sims; i++) {
        st.push_back(makeStack(g, 150));
        auto& s = st.back();
        if (s.unit) s.depths.assign(s.L.size(), 1);
    }
    struct Step {
        int sim;
        std::function<void()> f;
    };
    for (int i = 0; i < sims; i++) {
        g.note("simulation %d: %s", i, st[i].show().c_str());
        tw.push_back(construct(g, st[i].depths));
    }
    bool again = g.coin(0.3);
    for (int round = 0; round < (again ? 2 : 1); round++) {
        // the calls that draw, in any order that keeps the one within a layer
        std::vector<std::vector<std::function<void()>>> queue;
        for (int i = 0; i < sims; i++) {
            for (size_t l = 0; l < st[i].L.size(); l++) {
                queue.emplace_back();
                auto& q = queue.back();
                auto& S = st[i].L[l].S;
                if (round == 0) {
                    for (int f : S.order) {
                        auto& F = S.faces[f];
                        if ((F.kind == RECT || F.kind == RECTWH) && g.coin(0.8)) q.push_back([&, i, l] { drawRectangle(g, tw[i], F.poly[0], F.poly[2], l); });
                        else q.push_back([&, i, l] { drawPolygon(g, tw[i], F.poly, l); });
                    }
                    if (g.coin(0.08)) {
                        // an outline of many points beside the rest
                        double z = S.size();
                        int n = 20 + g.size(0, 400);
                        Poly p;
                        Vector c = S.faces[0].seed - Vector(5 * z, 0);
                        for (int k = 0; k < n; k++) p.push_back(c + Vector(cos(2 * M_PI * k / n), sin(2 * M_PI * k / n)) * (0.2 * z));
                        g.label("outlines of many points");
                        q.push_back([&, i, l, p, c] { drawPolygon(g, tw[i], p, l), drawRegion(g, tw[i], c, 2, l); });
                    }
                    for (int f : S.order) q.push_back([&, i, l, f] { drawRegion(g, tw[i], S.faces[f].seed, st[i].L[l].sigma[f], l); });
                } else if (g.coin(0.3)) {
                    // a rectangle far away: another conductor
                    q.push_back([&, i, l] {
                        double z = S.size();
                        Vector a(30 * z + 30, 0), b(31 * z + 30, z);
                        drawRectangle(g, tw[i], a, b, l), drawRegion(g, tw[i], (a + b) / 2, 10, l);
                    });
                }
            }
            if (round == 0) {
                queue.emplace_back();
                for (auto& c : st[i].ic) queue.back().push_back([&, i] { connect(g, tw[i], c); });
            }
        }
        std::vector<size_t> pos(queue.size(), 0);
        for (;;) {
            std::vector<int> open;
            for (size_t k = 0; k < queue.size(); k++)
                if (pos[k] < queue[k].size()) open.push_back(k);
            if (open.empty()) break;
            int k = open[g.draw(open.size() - 1)];
            queue[k][pos[k]++]();
        }
        for (int i = 0; i < sims; i++) generate(g, tw[i], st[i].P);
        for (int i = 0; i < sims; i++) {
            if (tw[i].stale) continue;
            int nv = 2 + g.size(0, 4);
            for (int k = 0; k < nv; k++) {
                size_t l = g.draw(st[i].L.size() - 1);
                voltage(g, tw[i], contactPoint(g, st[i].L[l]), volts(g), l);
                if (g.coin(0.1)) solve(g, tw[i]);
            }
        }
        for (int i = 0; i < sims; i++)
            if (!tw[i].stale) solve(g, tw[i]);
    }
    if (sims == 2) g.label("two simulations");
    g.nontrivial(again || sims == 2 || st[0].L.size() > 1);
}

PROPERTY(calls, 1500, 20000, "any history of valid calls in any order, on a lattice so that things coincide: both succeed or both fail, with equal results; non-trivial: a solution") {
    py::module();
    int n = 1 + g.draw(2);
    std::vector<double> depths;
    for (int i = 0; i < n; i++) depths.push_back(g.coin() ? 1 : g.coin(0.1) ? floor(g.logreal(1, 1e12)) : g.real(0.5, 4));
    g.note("layers %d", n);
    Twin t = construct(g, depths);
    bool solved = false;
    // of any size: whole numbers beyond 32 and 64 bits too
    double unit = g.coin(0.9) ? 1 : g.pick(std::vector<double>{1e-3, 1000, 8589934592.0, 73786976294838206464.0});
    bool large = unit > 1e9;
    if (large) g.label("large drawing");
    g.note("unit %g", unit);
    auto place = [&] { return Vector((int)g.draw(6), (int)g.draw(6)) * ((g.coin(0.1) ? 0.5 : 1) * unit); };
    int steps = 2 + g.size(0, 14);
    // most histories begin with a conductor
    for (int l = 0; l < n; l++)
        if (g.coin(0.8)) drawRectangle(g, t, {0, 0}, Vector(6, 6) * unit, l), drawRegion(g, t, Vector(0.3, 0.2) * unit, 10, l);
    for (int k = 0; k < steps; k++) {
        size_t l = g.draw(n - 1);
        int call = g.draw(8);
        // the library tells points apart by an absolute distance: in large drawings nothing may coincide only nearly
        if (large && (call == 1 || call == 3)) call = 0;
        switch (call) {
            case 0: drawRectangle(g, t, place(), place(), l); break;
            case 1: {
                Poly q;
                int m = 1 + g.draw(4);
                for (int i = 0; i < m; i++) q.push_back(place());
                drawPolygon(g, t, q, l);
                break;
            }
            case 2: drawRegion(g, t, place() + Vector(0.31, 0.17) * unit, g.real(1, 100), l); break;
            case 3: connect(g, t, {place(), place(), l, (uint64_t)g.draw(n - 1), g.coin(0.1) ? floor(g.logreal(1e8, 1e12)) : g.real(0.1, 10)}); break;
            case 4:
            case 5: {
                Params P;
                P.area = 36 * unit * unit / g.logreal(1, 60), P.angle = g.draw(33), P.refine = g.coin(0.1);
                // the first argument list with a default area is of the size of the problem
                generate(g, t, P, unit <= 1);
                break;
            }
            case 6:
                if (t.msys && !t.stale) voltage(g, t, place(), volts(g), l);
                break;
            default:
                if (t.msys && !t.stale) solve(g, t), solved = true;
        }
    }
    g.nontrivial(solved);
}
