// calls of the Python module with arguments of any type, length and range
#include "py.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace nikfemm;
using namespace scene;

static std::vector<std::string> kinds{"None", "bool", "int", "negative", "large", "huge", "float", "str", "bytes", "empty list", "short list", "long list", "list of str", "nested list", "tuple", "dict", "set", "object", "System", "simulation", "class", "list subclass", "float subclass", "int subclass", "hollow point"};
static py::Ref evaluate(const char* code) {
    PyObject* g = PyModule_GetDict(PyImport_AddModule("__main__"));
    return py::Ref(PyRun_String(code, Py_eval_input, g, g));
}
static void define() {
    static bool done = false;
    if (done) return;
    done = true;
    py::module();
    PyRun_SimpleString(
        "import nikfemm\n"
        "class L(list): pass\n"
        "class F(float): pass\n"
        "class I(int): pass\n"
        "class Odd:\n"
        "    def __len__(self): return 2\n"
        "    def __getitem__(self, i): return 1.0\n"
        "    def __float__(self): return 1.0\n"
        "    def __index__(self): return 1\n");
}
static py::Ref weird(pbt::Gen& g, std::string& what) {
    int k = g.draw(kinds.size() - 1);
    what = kinds[k];
    switch (k) {
        case 0: return evaluate("None");
        case 1: return evaluate(g.coin() ? "True" : "False");
        case 2: return evaluate(g.pick(std::vector<const char*>{"0", "1", "2", "7"}));
        case 3: return evaluate(g.pick(std::vector<const char*>{"-1", "-2**31", "-2**63", "-2**64-1"}));
        case 4: return evaluate(g.pick(std::vector<const char*>{"2**31", "2**32", "2**32+1", "2**63", "2**64", "2**64+1"}));
        case 5: return evaluate(g.coin() ? "10**400" : "-10**400");
        case 6: return evaluate(g.pick(std::vector<const char*>{"0.0", "1.5", "-3.25", "1e3"}));
        case 7: return evaluate(g.coin() ? "'text'" : "'0'");
        case 8: return evaluate("b'12'");
        case 9: return evaluate("[]");
        case 10: return evaluate("[1.0]");
        case 11: return evaluate("[1.0, 2.0, 3.0]");
        case 12: return evaluate(g.coin() ? "['a', 'b']" : "[1.0, 'b']");
        case 13: return evaluate(g.pick(std::vector<const char*>{"[[1.0, 2.0], [3.0]]", "[[1.0, 2.0], None]", "[[1.0], [2.0]]", "[[], []]"}));
        case 14: return evaluate(g.coin() ? "(1.0, 2.0)" : "((0, 0), (1, 0), (0, 1))");
        case 15: return evaluate("{0: 1.0, 1: 2.0}");
        case 16: return evaluate("{1, 2}");
        case 17: return evaluate(g.coin() ? "object()" : "Odd()");
        case 18: return evaluate("nikfemm.System()");
        case 19: return evaluate("nikfemm.MultiLayerCurrentDensitySimulation(1, [1])");
        case 20: return evaluate(g.coin() ? "int" : "nikfemm.System");
        case 21: return evaluate("L([1, 2])");
        case 22: return evaluate("F(1.5)");
        case 23: return evaluate("I(1)");
        default: return evaluate(g.coin() ? "[None, 1]" : "[1, 10**400]");
    }
}

// what the arguments mean; none of these when they mean nothing
static bool number(PyObject* o, double& x) {
    if (PyFloat_Check(o)) {
        x = PyFloat_AS_DOUBLE(o);
        return true;
    }
    if (!PyLong_Check(o)) return false;
    x = PyLong_AsDouble(o);
    if (PyErr_Occurred()) {
        PyErr_Clear();
        return false;
    }
    return true;
}
static bool pointArg(PyObject* o, Vector& v) { return PyList_Check(o) && PyList_GET_SIZE(o) == 2 && number(PyList_GET_ITEM(o, 0), v.x) && number(PyList_GET_ITEM(o, 1), v.y); }
static bool layerArg(PyObject* o, size_t n, size_t& l) {
    if (!PyLong_Check(o)) return false;
    int over;
    long long x = PyLong_AsLongLongAndOverflow(o, &over);
    if (over || x < 0 || x >= (long long)n) return false;
    l = x;
    return true;
}
static bool polygonArg(PyObject* o, Poly& q) {
    if (!PyList_Check(o) || PyList_GET_SIZE(o) == 0) return false;
    for (Py_ssize_t i = 0; i < PyList_GET_SIZE(o); i++) {
        Vector v;
        if (!pointArg(PyList_GET_ITEM(o, i), v)) return false;
        q.push_back(v);
    }
    return true;
}

struct World {
    py::Ref sim, sys;
    std::unique_ptr<MultiLayerCurrentDensitySimulation> model;
    std::unique_ptr<System<double>> msys;
    size_t layers;
    bool fresh = false;  // the system is the one of the last, successful, generation
};
enum Verdict { BAD, FINE, OPEN };  // has to fail; has to do what the library does; not specified
template <class F>
static std::string attempt(F f) {
    try {
        f();
        return "";
    } catch (std::exception& e) {
        return std::string("error: ") + e.what();
    }
}
static const std::vector<std::string> methods{"draw_rectangle", "draw_region", "draw_polygon", "add_interconnection", "set_voltage", "solve", "generate_system"};

// valid arguments of a method
static std::vector<py::Ref> good(pbt::Gen& g, World& w, const std::string& m) {
    auto P = [&] { return py::point(Vector((int)g.draw(6), (int)g.draw(6)), g.coin()); };
    auto L = [&] { return py::Ref(PyLong_FromLong(g.draw(w.layers - 1))); };
    auto N = [&] { return py::num(1 + (int)g.draw(8), g.coin()); };
    if (m == "draw_rectangle") return {P(), P(), L()};
    if (m == "draw_region") return {P(), py::num(1 + (int)g.draw(20)), L()};
    if (m == "draw_polygon") {
        py::Ref q(PyList_New(0));
        int n = 1 + g.draw(4);
        for (int i = 0; i < n; i++) PyList_Append(q, P());
        return {q, L()};
    }
    if (m == "add_interconnection") return {P(), P(), L(), L(), N()};
    py::Ref s = w.sys.o ? w.sys : evaluate("nikfemm.System()");
    if (m == "set_voltage") return {s, P(), N(), L()};
    if (m == "solve") return {s};
    std::vector<py::Ref> a{evaluate(g.coin() ? "False" : "True"), py::num(1 + (int)g.draw(9), g.coin()), py::num(g.draw(33), g.coin())};
    a.resize(g.draw(3));
    return a;
}
// the outcome that the arguments ask for: runs the call on the model when they are valid
static Verdict expected(World& w, const std::string& m, const std::vector<py::Ref>& a, std::string& err) {
    auto& M = *w.model;
    Vector p, q;
    size_t l, k;
    double x;
    Poly poly;
    if (m == "draw_rectangle") {
        if (a.size() != 3 || !pointArg(a[0], p) || !pointArg(a[1], q) || !layerArg(a[2], w.layers, l)) return BAD;
        err = attempt([&] { M.meshes[l].drawing.drawRectangle(p, q); });
        return FINE;
    }
    if (m == "draw_region") {
        if (a.size() != 3 || !pointArg(a[0], p) || !number(a[1], x) || !layerArg(a[2], w.layers, l)) return BAD;
        if (!PyFloat_Check(a[1].o)) return OPEN;
        err = attempt([&] { M.meshes[l].drawing.drawRegion(p, {x}); });
        return FINE;
    }
    if (m == "draw_polygon") {
        if (a.size() != 2 || !polygonArg(a[0], poly) || !layerArg(a[1], w.layers, l)) return BAD;
        err = attempt([&] { M.meshes[l].drawing.drawPolygon(poly); });
        return FINE;
    }
    if (m == "add_interconnection") {
        if (a.size() != 5 || !pointArg(a[0], p) || !pointArg(a[1], q) || !layerArg(a[2], w.layers, l) || !layerArg(a[3], w.layers, k) || !number(a[4], x)) return BAD;
        M.interconnections.push_back({p, q, l, k, x});
        return FINE;
    }
    auto system = [&](PyObject* o) {
        if (!w.sys.o || o != w.sys.o) return BAD;  // another object, or one without a system
        return w.fresh ? FINE : OPEN;
    };
    if (m == "set_voltage") {
        if (a.size() != 4 || !pointArg(a[1], p) || !number(a[2], x) || !layerArg(a[3], w.layers, l)) return BAD;
        Verdict v = system(a[0]);
        if (v == FINE) err = attempt([&] { M.setVoltage(*w.msys, p, x, l); });
        return v;
    }
    if (m == "solve") {
        if (a.size() != 1) return BAD;
        Verdict v = system(a[0]);
        if (v == FINE) err = attempt([&] { auto V = M.solve(*w.msys); M.computePowerDensity(V); });
        return v;
    }
    double area = 1, angle = 33;
    if (a.size() > 3 || (a.size() > 0 && !PyBool_Check(a[0].o)) || (a.size() > 1 && !number(a[1], area)) || (a.size() > 2 && !number(a[2], angle))) return BAD;
    bool refine = a.empty() || a[0].o == Py_True;
    // generations with parameters out of range fail after the drawing was refined and joined
    if (!(area > 0) || angle < 0 || angle > 60) {
        attempt([&] { M.generateSystem(refine, area, angle < 0 ? -1 : angle > 60 ? 61 : (int)angle); });
        return BAD;
    }
    err = attempt([&] {
        auto s = M.generateSystem(refine, area, (int)angle);
        w.msys = std::make_unique<System<double>>(s);
    });
    w.fresh = err.empty();
    return FINE;
}
// the parameters that can be told to be harmless: large angles may not end, small areas ask for too many triangles
static bool affordable(const std::vector<py::Ref>& a) {
    double x;
    if (a.size() > 1 && number(a[1], x) && x > 0 && x < 0.5) return false;
    if (a.size() > 2 && number(a[2], x) && x > 33 && x <= 60) return false;
    return true;
}
// a corner 1e19 away from a unit rectangle cannot be meshed in double precision
static bool faraway(const std::vector<py::Ref>& a) {
    for (auto& x : a) {
        Vector v;
        Poly q;
        if (pointArg(x, v)) q.push_back(v);
        else if (!polygonArg(x, q)) continue;
        for (auto& p : q)
            if (std::max(fabs(p.x), fabs(p.y)) > 1e6) return true;
    }
    return false;
}
static World construct(pbt::Gen& g) {
    World w;
    w.layers = 1 + g.draw(1);
    std::vector<double> depths;
    py::Ref d(PyList_New(0));
    for (size_t i = 0; i < w.layers; i++) depths.push_back(1 + (int)g.draw(3)), PyList_Append(d, py::num(depths[i], g.coin()));
    py::Ref a(Py_BuildValue("(nO)", (Py_ssize_t)w.layers, d.o));
    auto o = py::call(py::module(), "MultiLayerCurrentDensitySimulation", a);
    CHECK(o.ok(), "constructor", "%s %s", o.error.c_str(), o.text.c_str());
    w.sim = o.value;
    w.model = std::make_unique<MultiLayerCurrentDensitySimulation>(w.layers, depths);
    return w;
}
static py::Ref pack(const std::vector<py::Ref>& a) {
    py::Ref t(PyTuple_New(a.size()));
    for (size_t i = 0; i < a.size(); i++) Py_INCREF(a[i].o), PyTuple_SetItem(t, i, a[i].o);
    return t;
}
static std::string spell(const std::string& m, const std::vector<py::Ref>& a) {
    std::string s = m + "(";
    for (size_t i = 0; i < a.size(); i++) {
        std::string r = py::str(a[i]);
        if (r.size() > 60) r = r.substr(0, 57) + "...";
        s += (i ? ", " : "") + r;
    }
    return s + ")";
}
static void protocol(const py::Out& o, const std::string& call) {
    CHECK(o.error != "value and error" && o.error != "no value and no error" && o.error != "SystemError", "protocol", "%s: %s %s", call.c_str(), o.error.c_str(), o.text.c_str());
}
static void step(World& w, const std::string& m, std::vector<py::Ref>& a, bool& bad) {
    std::string call = spell(m, a);
    std::vector<Py_ssize_t> before;
    std::set<PyObject*> uniq;
    {
        py::Ref t = pack(a);
        for (auto& x : a) before.push_back(Py_REFCNT(x.o));
        auto o = py::call(w.sim, m.c_str(), t);
        for (size_t i = 0; i < a.size(); i++) CHECK(Py_REFCNT(a[i].o) == before[i], "references", "%s: argument %zu has %zd references after the call, %zd before", call.c_str(), i, Py_REFCNT(a[i].o), before[i]);
        protocol(o, call);
        std::string err;
        Verdict v = expected(w, m, a, err);
        if (v == BAD) {
            bad = true;
            if (m == "generate_system") w.fresh = false;
            CHECK(!o.ok(), "accepted", "%s raises nothing", call.c_str());
        } else if (v == FINE) {
            CHECK(o.ok() == err.empty(), "outcome", "%s: Python %s %s, C++ %s", call.c_str(), o.ok() ? "succeeds" : o.error.c_str(), o.text.c_str(), err.empty() ? "succeeds" : err.c_str());
            if (m == "generate_system" && o.ok()) w.sys = py::borrowed(PyTuple_GetItem(o.value, 0));
        }
    }
}
static void simple(World& w, const char* m, const char* code) {
    std::vector<py::Ref> a;
    py::Ref t = evaluate(code);
    for (Py_ssize_t i = 0; i < PyTuple_GET_SIZE(t.o); i++) a.push_back(py::borrowed(PyTuple_GET_ITEM(t.o, i)));
    bool bad;
    step(w, m, a, bad);
}

PROPERTY_H(arguments, 1500, 20000, "histories of calls with valid and invalid arguments of any type, length and range: invalid ones raise an exception and change nothing, valid ones do what the library does, no argument gains or loses a reference, and the simulation gives the library's solution afterwards; non-trivial: an invalid call", 200) {
    define();
    World w = construct(g);
    // a conductor in every layer, most of the time
    for (size_t l = 0; l < w.layers; l++)
        if (g.coin(0.9)) {
            std::string lay = std::to_string(l);
            simple(w, "draw_rectangle", ("([0, 0], [6, 6], " + lay + ")").c_str());
            simple(w, "draw_region", ("([0.3, 0.2], 10.0, " + lay + ")").c_str());
        }
    int n = 1 + g.size(0, 12);
    bool bad = false;
    for (int i = 0; i < n; i++) {
        std::string m = g.pick(methods);
        auto a = good(g, w, m);
        int muts = g.draw(2);
        for (int k = 0; k < muts; k++) {
            std::string what;
            switch (g.draw(5)) {
                case 0:
                    if (!a.empty()) a.erase(a.begin() + g.draw(a.size() - 1));
                    break;
                case 1: a.insert(a.begin() + g.draw(a.size()), weird(g, what)); break;
                case 2:
                    // something odd within a list
                    if (!a.empty()) {
                        auto& x = a[g.draw(a.size() - 1)];
                        if (PyList_Check(x.o) && PyList_GET_SIZE(x.o)) {
                            py::Ref y(PyList_GetSlice(x, 0, PyList_GET_SIZE(x.o))), e = weird(g, what);
                            Py_INCREF(e.o);
                            PyList_SetItem(y, g.draw(PyList_GET_SIZE(y.o) - 1), e.o);
                            x = y;
                        }
                    }
                    break;
                default:
                    if (!a.empty()) a[g.draw(a.size() - 1)] = weird(g, what);
            }
        }
        if (m == "generate_system" && !affordable(a)) continue;
        if (m.substr(0, 4) == "draw" && faraway(a)) continue;
        g.note(" %s", spell(m, a).c_str());
        step(w, m, a, bad);
    }
    if (bad) g.label("invalid call");
    // still usable
    simple(w, "generate_system", "(False, 4, 20)");
    if (w.fresh) {
        std::vector<py::Ref> a{w.sys, evaluate("[0, 0]"), evaluate("1.0"), evaluate("0")}, b{w.sys, evaluate("[6, 6]"), evaluate("-1"), evaluate("0")}, s{w.sys};
        bool x;
        step(w, "set_voltage", a, x), step(w, "set_voltage", b, x);
        auto o = py::call(w.sim, "solve", pack(s));
        std::vector<double> V;
        auto err = attempt([&] { V = w.model->solve(*w.msys); });
        CHECK(o.ok() == err.empty(), "afterwards", "solve: Python %s, C++ %s", o.error.c_str(), err.c_str());
        if (o.ok()) {
            PyObject* vo = PyTuple_GetItem(o.value, 0);
            CHECK(PyList_Size(vo) == (Py_ssize_t)V.size(), "afterwards", "%zd voltages, %zu in C++", PyList_Size(vo), V.size());
            for (size_t i = 0; i < V.size(); i++) {
                double v = PyFloat_AsDouble(PyTuple_GetItem(PyList_GetItem(vo, i), 3));
                CHECK(v == V[i] || (std::isnan(v) && std::isnan(V[i])), "afterwards", "voltage %zu is %.17g, %.17g in C++", i, v, V[i]);
            }
            g.label("solved afterwards");
        }
    }
    g.nontrivial(bad);
}

PROPERTY(constructor, 1500, 20000, "the constructor with any arguments: a simulation with as many layers as asked for, or an exception; non-trivial: an exception") {
    define();
    int n = g.draw(4);
    py::Ref d(PyList_New(0));
    int len = g.coin(0.8) ? n : (int)g.draw(4);
    for (int i = 0; i < len; i++) {
        std::string what;
        PyList_Append(d, g.coin(0.8) ? py::num(1 + (int)g.draw(3), g.coin()) : weird(g, what));
    }
    std::vector<py::Ref> a{py::Ref(PyLong_FromLong(n)), d};
    std::string what;
    int k = g.draw(5);
    if (k == 0) a[g.draw(1)] = weird(g, what);
    if (k == 1) a.erase(a.begin() + g.draw(1));
    if (k == 2 && g.coin()) a.insert(a.begin() + g.draw(2), weird(g, what));
    std::string call = spell("MultiLayerCurrentDensitySimulation", a);
    g.note("%s", call.c_str());
    bool ok = a.size() == 2 && PyLong_Check(a[0].o) && PyList_Check(a[1].o), open = false;
    size_t layers = 0;
    if (ok) {
        int over;
        long long x = PyLong_AsLongLongAndOverflow(a[0], &over);
        ok = !over && x >= 0 && x == PyList_GET_SIZE(a[1].o);
        layers = x;
        // the number of layers is a 32 bit unsigned number, Python's own conversion takes the low bits of larger ones
        open = over || x < 0 || x > 0xffffffffll;
        for (Py_ssize_t i = 0; ok && i < PyList_GET_SIZE(a[1].o); i++) {
            double v;
            ok = number(PyList_GET_ITEM(a[1].o, i), v);
        }
    } else if (a.size() == 2 && !PyLong_Check(a[0].o) && PyIndex_Check(a[0].o)) open = true;
    py::Ref t = pack(a);
    std::vector<Py_ssize_t> before;
    for (auto& x : a) before.push_back(Py_REFCNT(x.o));
    auto o = py::call(py::module(), "MultiLayerCurrentDensitySimulation", t);
    protocol(o, call);
    for (size_t i = 0; i < a.size(); i++) CHECK(Py_REFCNT(a[i].o) == before[i], "references", "%s: argument %zu has %zd references after the call, %zd before", call.c_str(), i, Py_REFCNT(a[i].o), before[i]);
    g.nontrivial(!ok);
    if (open) return;
    CHECK(o.ok() == ok, "outcome", "%s: %s %s", call.c_str(), o.ok() ? "succeeds" : o.error.c_str(), o.text.c_str());
    if (!ok) return;
    for (size_t l = 0; l < layers + 2; l++) {
        auto r = py::call(o.value, "draw_region", evaluate(("([0, 0], 1.0, " + std::to_string(l) + ")").c_str()));
        CHECK(r.ok() == (l < layers), "layers", "%s: draw_region on layer %zu %s", call.c_str(), l, r.ok() ? "succeeds" : r.error.c_str());
    }
}

PROPERTY(leaks, 1500, 12000, "the same call again and again, valid or not, on a simulation in any state: the memory in use does not grow; non-trivial: an invalid call or a solution") {
    define();
    World w = construct(g);
    for (size_t l = 0; l < w.layers; l++) {
        std::string lay = std::to_string(l);
        simple(w, "draw_rectangle", ("([0, 0], [6, 6], " + lay + ")").c_str());
        simple(w, "draw_region", ("([0.3, 0.2], 10.0, " + lay + ")").c_str());
    }
    bool gen = g.coin(0.8);
    if (gen) {
        simple(w, "generate_system", "(False, 4, 20)");
        std::vector<py::Ref> a{w.sys, evaluate("[0, 0]"), evaluate("1.0"), evaluate("0")}, b{w.sys, evaluate("[6, 6]"), evaluate("-1"), evaluate("0")};
        bool x;
        step(w, "set_voltage", a, x), step(w, "set_voltage", b, x);
    }
    std::string m = g.coin(0.25) ? "MultiLayerCurrentDensitySimulation" : g.pick(methods), what;
    std::vector<py::Ref> a;
    bool valid = g.coin(0.4), create = m[0] == 'M';
    if (create) a = {py::Ref(PyLong_FromLong(2)), evaluate("[1.0, 2]")};
    else a = good(g, w, m);
    if (m == "generate_system") {
        a = {evaluate("False"), py::num(4), py::num(20)};
        a.resize(1 + g.draw(2));
    }
    if (!valid) {
        int k = g.draw(5), list = -1;
        for (size_t i = 0; i < a.size(); i++)
            if (PyList_CheckExact(a[i].o) && PyList_GET_SIZE(a[i].o) && (list < 0 || g.coin())) list = i;
        if (k >= 3 && list >= 0) {
            // something wrong inside of a list
            PyObject* x = a[list].o;
            py::Ref y(PyList_GetSlice(x, 0, PyList_GET_SIZE(x))), e = weird(g, what);
            Py_INCREF(e.o);
            PyList_SetItem(y, g.draw(PyList_GET_SIZE(x) - 1), e.o);
            a[list] = y;
        } else if (k == 0 && !a.empty()) a.pop_back();
        else if (k == 1) a.push_back(weird(g, what));
        else if (!a.empty()) a[g.draw(a.size() - 1)] = weird(g, what);
    }
    if (m == "generate_system" && (!affordable(a) || (a.empty() || a[0].o != Py_False))) return;  // refining adds points
    std::string call = spell(m, a);
    g.note("%s", call.c_str());
    PyObject* on = create ? py::module() : w.sim.o;
    bool ok = false;
    auto run = [&](int n) {
        for (int i = 0; i < n; i++) {
            py::Ref t = pack(a);
            auto o = py::call(on, m.c_str(), t);
            ok = o.ok();
        }
    };
    run(6);
    // a drawing grows by what is drawn
    if (ok && (m == "draw_region" || m == "draw_polygon" || m == "draw_rectangle" || m == "add_interconnection")) return;
    // caches and tables may grow now and then: what is lost every time is lost in every one of several rounds
    int reps = 24;
    long grow = 1l << 60;
    for (int k = 0; k < 4 && grow >= 16 * reps; k++) {
        size_t before = __sanitizer_get_current_allocated_bytes();
        run(reps);
        grow = std::min(grow, (long)(__sanitizer_get_current_allocated_bytes() - before));
    }
    g.nontrivial(!ok || m == "solve");
    g.label(ok ? m.c_str() : "refused call");
    if ((m == "draw_polygon" || m == "draw_rectangle") && grow > 0) return;  // a refused shape may leave its first segments
    CHECK(grow < 16 * reps, "leak", "%s takes %g bytes every time (%s)", call.c_str(), (double)grow / reps, ok ? "succeeds" : "raises");
}
