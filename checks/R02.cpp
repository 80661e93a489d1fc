// the same calls give the same results, whatever else happened or happens in the process
#include <malloc.h>
#include <spawn.h>
#include <unistd.h>
#include <sys/wait.h>
#include "layers.hpp"
#include "magnetic.hpp"
using namespace nikfemm;
using namespace scene;
extern char** environ;

// everything that a simulation told
struct Log {
    std::vector<double> v;
    std::vector<std::pair<size_t, std::string>> marks;
    void mark(const std::string& s) { marks.push_back({v.size(), s}); }
    void put(double x) { v.push_back(x); }
    void put(Vector x) { v.push_back(x.x), v.push_back(x.y); }
    template <class T>
    void put(const std::vector<T>& x) {
        put((double)x.size());
        for (auto& e : x) put(e);
    }
    template <class M>
    void mesh(M& m) {
        mark("mesh");
        put(m.center), put(m.radius), put(m.epsilon);
        put((double)m.data.numberofpoints), put((double)m.data.numberoftriangles);
        for (int i = 0; i < m.data.numberofpoints; i++) put(m.data.pointlist[i]);
        for (int i = 0; i < m.data.numberoftriangles; i++) {
            for (int k = 0; k < 3; k++) put((double)m.data.trianglelist[i].verts[k]);
            put(m.data.triangleattributelist[i]);
        }
        mark("drawing after meshing");
        for (auto& p : m.drawing.points) put(p);
        for (auto& s : m.drawing.segments) put((double)s.p1), put((double)s.p2);
    }
    void system(const System<double>& s) {
        mark("system");
        // the entries have no order
        std::map<uint64_t, double> e;
        for (auto& x : s.A.elems) e[x.first] = x.second;
        for (auto& x : e) put((double)x.first), put(x.second);
        put(s.b);
    }
    std::string differs(const Log& o) const {
        size_t n = std::min(v.size(), o.v.size());
        for (size_t i = 0; i < n; i++)
            if (memcmp(&v[i], &o.v[i], 8)) {
                std::string w = "start";
                for (auto& m : marks)
                    if (m.first <= i) w = m.second;
                return pbt::fmt("%s: number %zu is %.17g and %.17g", w.c_str(), i, v[i], o.v[i]);
            }
        if (v.size() != o.v.size()) return pbt::fmt("%zu numbers and %zu, after %s", v.size(), o.v.size(), marks.empty() ? "" : marks.back().second.c_str());
        if (marks != o.marks) return "the outcomes differ: " + (marks.empty() ? "" : marks.back().second) + " and " + (o.marks.empty() ? "" : o.marks.back().second);
        return "";
    }
};

enum JobKind { SINGLE, STACK, MAGNETIC };
struct Job {
    JobKind kind;
    Stack st;  // one layer for SINGLE
    MagScene M;
    std::vector<std::pair<size_t, Vector>> where;  // voltages
    std::vector<double> volts;
    int bad = 0;       // how it fails
    Vector badPoint;
    double badSize = 1;
    std::string show() const {
        std::string s = kind == SINGLE ? "conduction " : kind == STACK ? "layers " : "magnetostatics ";
        s += kind == MAGNETIC ? M.show() : st.show();
        if (bad) s += pbt::fmt("\n fails: %d (%g,%g)", bad, badPoint.x, badPoint.y);
        for (size_t i = 0; i < where.size(); i++) s += pbt::fmt("\n %g V in layer %zu at (%g,%g)", volts[i], where[i].first, where[i].second.x, where[i].second.y);
        return s;
    }
};
static const int STEPS = 5;
struct Run {
    const Job& j;
    Log log;
    int next = 0;
    bool dead = false;
    std::unique_ptr<CurrentDensitySimulation> one;
    std::unique_ptr<MultiLayerCurrentDensitySimulation> many;
    std::unique_ptr<MagnetostaticSimulation> mag;
    std::unique_ptr<System<double>> sys;
    std::unique_ptr<System<NonLinearExpression>> nl;
    std::vector<double> V;
    std::vector<Vector> B;
    Run(const Job& j) : j(j) {}
    bool done() const { return dead || next == STEPS; }
    void all() {
        while (!done()) step();
    }
    template <class D>
    void spoil(D& d, int when) {
        if (j.bad == 1 && when == 0) d.drawRectangle(j.badPoint, j.badPoint + Vector(j.badSize, j.badSize) * 0.1);  // may cross what is there
        if (j.bad == 2 && when == 0) d.drawPolygon(Poly{j.badPoint, j.badPoint + Vector(j.badSize, j.badSize * 0.1), j.badPoint + Vector(-j.badSize, j.badSize * 0.2)});  // most likely crosses
    }
    void step() {
        int s = next++;
        try {
            switch (j.kind) {
                case SINGLE: single(s); break;
                case STACK: stack(s); break;
                default: magnetic(s);
            }
        } catch (std::exception& e) {
            log.mark(std::string("error: ") + e.what());
            dead = true;
        }
    }
    double area(double a) { return j.bad == 3 ? -1 : a; }
    void single(int s) {
        if (s == 0) {
            one = j.st.unit ? std::make_unique<CurrentDensitySimulation>() : std::make_unique<CurrentDensitySimulation>(j.st.depths[0]);
            j.st.L[0].draw(one->mesh);
            spoil(one->mesh.drawing, 0);
        } else if (s == 1) {
            if (j.bad == 4) one->mesh.drawing.drawRegion(j.badPoint + Vector(1e9, 1e9), {3.0});
            sys = std::make_unique<System<double>>(one->generateSystem(j.st.P.refine, area(j.st.P.area), j.st.P.angle));
            log.mesh(one->mesh), log.system(*sys);
        } else if (s == 2) {
            for (size_t i = 0; i < j.where.size(); i++) one->setVoltage(*sys, j.where[i].second, j.volts[i]);
            log.system(*sys);
        } else if (s == 3) {
            V = one->solve(*sys);
            log.mark("solution"), log.put(V);
        } else {
            auto E = one->mesh.computeGrad(V);
            log.mark("field"), log.put(E);
            auto again = one->solve(*sys);
            log.mark("solved again"), log.put(again);
            CHECK(again.size() == V.size() && !memcmp(again.data(), V.data(), 8 * V.size()), "solve", "solving the same system twice gives different solutions");
        }
    }
    void stack(int s) {
        if (s == 0) {
            many = std::make_unique<MultiLayerCurrentDensitySimulation>(j.st.make());
            j.st.draw(*many);
            spoil(many->meshes[0].drawing, 0);
        } else if (s == 1) {
            if (j.bad == 4) many->meshes[0].drawing.drawRegion(j.badPoint + Vector(1e9, 1e9), {3.0});
            sys = std::make_unique<System<double>>(many->generateSystem(j.st.P.refine, area(j.st.P.area), j.st.P.angle));
            for (auto& m : many->meshes) log.mesh(m);
            log.system(*sys);
        } else if (s == 2) {
            for (size_t i = 0; i < j.where.size(); i++) many->setVoltage(*sys, j.where[i].second, j.volts[i], j.where[i].first);
            log.system(*sys);
        } else if (s == 3) {
            V = many->solve(*sys);
            log.mark("solution"), log.put(V);
        } else {
            log.mark("power"), log.put(many->computePowerDensity(V));
        }
    }
    void magnetic(int s) {
        if (s == 0) {
            mag = std::make_unique<MagnetostaticSimulation>();
            mag->depth = 0.5;
            j.M.draw(*mag);
            spoil(mag->mesh.drawing, 0);
        } else if (s == 1) {
            if (j.bad == 4) mag->mesh.drawing.drawRegion(j.badPoint + Vector(1e9, 1e9), {3.0, {0, 0}, MU0, {}});
            nl = std::make_unique<System<NonLinearExpression>>(mag->generateSystem(j.M.refine, area(j.M.area), j.M.angle, j.M.refineMagnets));
            log.mesh(mag->mesh);
        } else if (s == 2) {
        } else if (s == 3) {
            V = mag->solve(*nl);
            log.mark("potential"), log.put(V);
        } else {
            B = mag->mesh.computeCurl(V);
            log.mark("field"), log.put(B);
            for (auto& f : j.M.S.faces) {
                // bodies whose surroundings cannot be told raise an error
                try {
                    auto F = mag->computeForceIntegrals(B, f.seed);
                    double T = mag->computeTorqueIntegral(B, f.seed, f.seed);
                    log.mark("force"), log.put(F), log.put(T);
                } catch (std::exception& e) {
                    log.mark(std::string("force: ") + e.what());
                }
            }
        }
    }
};
static Job makeJob(pbt::Gen& g, int tri) {
    Job j;
    j.kind = (JobKind)g.draw(2);
    Vector somewhere;
    if (j.kind == MAGNETIC) {
        Opts o;
        o.maxFaces = 3, o.maxDepth = 2, o.maxCirclePts = 10;
        o.minScale = 0.1, o.maxScale = 10;
        MagOpts mo;
        mo.maxMu = 100;
        j.M = makeMag(g, o, mo, tri);
        ASSUME(j.M.S.clearance() > 1e-3 * j.M.S.size());
        j.M.angle = 20 + g.draw(10);
        if (g.coin(0.4)) {
            auto& p = j.M.prop[g.draw(j.M.prop.size() - 1)];
            p.bh_curve = {{0, 0}, {1, 300}, {1.5, 900}, {1.8, 5000}, {2.2, 3e5}};
            g.label("nonlinear");
        }
        if (g.coin(0.3) && canRefineMagnets(j.M, 400)) j.M.refineMagnets = true;
        somewhere = j.M.S.faces[0].poly[0], j.badSize = j.M.S.size();
        g.label("magnetostatics");
    } else {
        j.st = makeStack(g, tri);
        if (j.kind == SINGLE) j.st.L.resize(1), j.st.depths.resize(1), j.st.ic.clear();
        int n = g.draw(3);
        for (int i = 0; i < n; i++) {
            size_t l = g.draw(j.st.L.size() - 1);
            j.where.push_back({l, contactPoint(g, j.st.L[l])});
            j.volts.push_back(g.real(-5, 5));
        }
        somewhere = j.st.L[0].S.faces[0].poly[0], j.badSize = j.st.L[0].S.size();
        g.label(j.kind == SINGLE ? "conduction" : "layers");
    }
    if (g.coin(0.25)) j.bad = 1 + g.draw(3), j.badPoint = somewhere, g.label("may fail");
    return j;
}
// the allocator hands out memory with other contents at other places from now on
static void stir(pbt::Gen& g) {
    static std::vector<void*> junk;
    mallopt(M_PERTURB, (int)g.draw(255));
    int n = g.draw(40);
    for (int i = 0; i < n; i++) junk.push_back(malloc(1 + g.draw(5000)));
    for (size_t i = 0; i < junk.size();)
        if (g.coin(0.4)) {
            free(junk[i]);
            junk[i] = junk.back();
            junk.pop_back();
        } else i++;
}

PROPERTY(again, 800, 12000, "a simulation of any kind, from drawing to forces, valid or failing somewhere, run twice with memory of other contents, after other simulations: every mesh, system, solution, field and error is the same to the last bit; non-trivial: a solution of 20 unknowns") {
    stir(g);
    Job a = makeJob(g, 300);
    g.note("%s", a.show().c_str());
    Run r1(a);
    r1.all();
    int n = g.draw(2);
    for (int i = 0; i < n; i++) {
        Job b = makeJob(g, 100);
        g.note("in between: %s", b.show().c_str());
        Run r(b);
        int steps = 1 + g.draw(STEPS - 1);
        while (!r.done() && steps--) r.step();
    }
    stir(g);
    Run r2(a);
    r2.all();
    auto d = r1.log.differs(r2.log);
    g.nontrivial(r1.V.size() >= 20);
    if (r1.dead) g.label("fails");
    CHECK(d.empty(), "again", "the second run of the same calls differs in its %s", d.c_str());
}

PROPERTY(interleaved, 500, 8000, "two to four simulations of any kind, valid or failing, whose steps are interleaved at random and one of which is destroyed early: each gives what it gives alone; non-trivial: two of them reach a solution") {
    int n = 2 + g.draw(2);
    std::vector<Job> jobs;
    for (int i = 0; i < n; i++) jobs.push_back(i && g.coin(0.3) ? jobs[g.draw(i - 1)] : makeJob(g, 150));
    for (auto& j : jobs) g.note("%s", j.show().c_str());
    std::vector<std::unique_ptr<Run>> alone, mixed;
    for (auto& j : jobs) alone.push_back(std::make_unique<Run>(j)), alone.back()->all();
    stir(g);
    for (auto& j : jobs) mixed.push_back(std::make_unique<Run>(j));
    std::vector<int> left;
    for (int i = 0; i < n; i++) left.push_back(i);
    int early = g.coin(0.4) ? (int)g.draw(n - 1) : -1;
    int switches = 0, last = -1, solved = 0;
    std::string order;
    while (!left.empty()) {
        size_t k = g.draw(left.size() - 1);
        int i = left[k];
        mixed[i]->step();
        order += pbt::fmt("%d ", i);
        switches += i != last;
        last = i;
        if (i == early && (mixed[i]->next >= 3 || mixed[i]->done())) {
            mixed[i].reset();
            left.erase(left.begin() + k);
        } else if (mixed[i]->done()) left.erase(left.begin() + k);
    }
    g.note("order %s", order.c_str());
    for (int i = 0; i < n; i++) {
        if (!mixed[i]) continue;
        solved += mixed[i]->V.size() >= 20;
        auto d = alone[i]->log.differs(mixed[i]->log);
        CHECK(d.empty(), "interleaved", "simulation %d differs from the same one alone in its %s (order %s)", i, d.c_str(), order.c_str());
    }
    g.nontrivial(solved >= 2 && switches > n);
}

PROPERTY(regenerate, 500, 8000, "conductors whose system is generated several times, with other meshes and solutions in between: the last one is what a new simulation gives; copies of a drawn simulation are independent of it; non-trivial: 20 unknowns") {
    auto st = makeStack(g, 300);
    st.P.refine = false;
    bool single = g.coin();
    if (single) st.L.resize(1), st.depths.resize(1), st.ic.clear();
    int n = 1 + g.draw(2);
    std::vector<Params> ps;
    double tot = 0;
    for (auto& l : st.L) tot = std::max(tot, l.S.total());
    for (int i = 0; i < n; i++) {
        ps.push_back(condParams(g, tot, 300));
        ps.back().refine = false;
        if (g.coin(0.2)) ps.back().area = -1;
    }
    g.note("%s", st.show().c_str());
    for (auto& p : ps) g.note("before: area %.17g angle %d", p.area, p.angle);
    Log a, b, c;
    auto last = [&](auto& sim, Log& log) {
        auto sys = sim.generateSystem(false, st.P.area, st.P.angle);
        log.system(sys);
        return sys;
    };
    Vector p = st.L[0].S.faces[0].seed, q = st.L[0].S.faces[0].poly[0];
    auto attempts = [&](auto& sim, auto set) {
        for (auto& P : ps) try {
                auto sys = sim.generateSystem(false, P.area, P.angle);
                set(sim, sys);
                sim.solve(sys);
            } catch (std::exception& e) {
                CHECK(P.area < 0, "generation", "fails: %s", e.what());
            }
    };
    if (single) {
        auto set = [&](CurrentDensitySimulation& s, System<double>& y) { s.setVoltage(y, p, 1), s.setVoltage(y, q, 0); };
        CurrentDensitySimulation s1(st.depths[0]), s2(st.depths[0]);
        st.L[0].draw(s1.mesh), st.L[0].draw(s2.mesh);
        CurrentDensitySimulation s3 = s2;  // a copy of what was drawn
        attempts(s1, set);
        auto y1 = last(s1, a), y2 = last(s2, b);
        if (g.coin()) s2.mesh.drawing.drawRectangle(p, p + Vector(1e-3, 1e-3) * st.L[0].S.clearance());
        auto y3 = last(s3, c);
        a.mesh(s1.mesh), c.mesh(s3.mesh);
        set(s1, y1), set(s3, y3);
        a.put(s1.solve(y1)), c.put(s3.solve(y3));
        if (y2.b.size() >= 20) g.nontrivial(true);
    } else {
        auto set = [&](MultiLayerCurrentDensitySimulation& s, System<double>& y) { s.setVoltage(y, p, 1, 0), s.setVoltage(y, q, 0, 0); };
        auto s1 = st.make(), s2 = st.make();
        st.draw(s1), st.draw(s2);
        auto s3 = s2;
        attempts(s1, set);
        auto y1 = last(s1, a), y2 = last(s2, b);
        auto y3 = last(s3, c);
        for (size_t i = 0; i < st.L.size(); i++) a.mesh(s1.meshes[i]), c.mesh(s3.meshes[i]);
        set(s1, y1), set(s3, y3);
        a.put(s1.solve(y1)), c.put(s3.solve(y3));
        if (y2.b.size() >= 20) g.nontrivial(true);
        g.label("layers");
    }
    Log a1 = a;
    a1.v.resize(std::min(a1.v.size(), b.v.size())), a1.marks = b.marks;
    auto d = a1.differs(b);
    CHECK(d.empty(), "regenerate", "generated again after %d others, it differs from a new one in its %s", n, d.c_str());
    d = a.differs(c);
    CHECK(d.empty(), "copy", "a copy of the drawn simulation differs in its %s", d.c_str());
}

PROPERTY(defaults, 400, 6000, "a simulation of any kind made and its system generated with all arguments, and with those left out that have the usual values (refined drawing, area 1, angle 33, magnets not refined, depth 1): meshes, systems, solutions, power and forces are the same to the last bit; non-trivial: 20 vertices") {
    Opts o;
    o.maxFaces = 3, o.maxDepth = 2;
    o.minScale = 1, o.maxScale = 6;
    int kind = g.draw(2), given = g.draw(3);
    Log a, b;
    std::vector<double> V;
    if (kind == MAGNETIC) {
        auto M = makeMag(g, o, MagOpts(), 100);
        ASSUME(M.S.clearance() > 1e-3 * M.S.size() && M.S.size() > 1 && M.S.size() < 20);
        M.refine = true, M.area = 1, M.angle = 33, M.refineMagnets = false;
        g.note("magnetostatics, %d given %s", given, M.show().c_str());
        g.label("magnetostatics");
        for (int k = 0; k < 2; k++) {
            Log& log = k ? b : a;
            MagnetostaticSimulation sim;
            if (!k) sim.depth = 1;
            M.draw(sim);
            auto sys = !k ? M.generate(sim) : given == 0 ? sim.generateSystem() : given == 1 ? sim.generateSystem(true) : given == 2 ? sim.generateSystem(true, 1) : sim.generateSystem(true, 1, 33);
            log.mesh(sim.mesh);
            V = sim.solve(sys);
            log.mark("potential"), log.put(V);
            auto B = sim.mesh.computeCurl(V);
            try {
                auto F = sim.computeForceIntegrals(B, M.S.faces.back().seed);
                log.mark("force"), log.put(F);
            } catch (std::exception& e) {
                log.mark(std::string("force: ") + e.what());
            }
        }
    } else {
        int n = kind == STACK ? 1 + g.draw(2) : 1;
        std::vector<Layer> L;
        for (int i = 0; i < n; i++) {
            L.push_back(makeLayer(g, o));
            ASSUME(L[i].S.clearance() > 1e-3 * L[i].S.size() && L[i].S.size() > 1 && L[i].S.size() < 20);
            g.note("layer %d %s", i, L[i].show().c_str());
        }
        Vector p = L[0].S.faces[0].seed;
        g.note("%s, %d given", kind == STACK ? "layers" : "conduction", given);
        g.label(kind == STACK ? "layers" : "conduction");
        given = std::min(given, 2);
        auto gen = [&](auto& sim, bool all) { return all ? sim.generateSystem(true, 1, 33) : given == 0 ? sim.generateSystem() : given == 1 ? sim.generateSystem(true) : sim.generateSystem(true, 1); };
        for (int k = 0; k < 2; k++) {
            Log& log = k ? b : a;
            if (kind == STACK) {
                auto sim = k ? MultiLayerCurrentDensitySimulation(n) : MultiLayerCurrentDensitySimulation(n, std::vector<double>(n, 1.0));
                for (int i = 0; i < n; i++) L[i].draw(sim.meshes[i]);
                auto sys = gen(sim, !k);
                for (auto& m : sim.meshes) log.mesh(m);
                log.system(sys);
                for (int i = 0; i < n; i++) sim.setVoltage(sys, L[i].S.faces[0].seed, 1 + i, i);
                V = sim.solve(sys);
                log.mark("solution"), log.put(V);
                log.mark("power"), log.put(sim.computePowerDensity(V));
            } else {
                auto sim = k ? CurrentDensitySimulation() : CurrentDensitySimulation(1);
                L[0].draw(sim.mesh);
                auto sys = gen(sim, !k);
                log.mesh(sim.mesh), log.system(sys);
                sim.setVoltage(sys, p, 1);
                V = sim.solve(sys);
                log.mark("solution"), log.put(V);
                log.mark("area"), log.put(sim.mesh.computeMass(p, 1));
            }
        }
    }
    g.nontrivial(V.size() >= 20);
    auto d = a.differs(b);
    CHECK(d.empty(), "defaults", "with arguments left out the %s", d.c_str());
}

PROPERTY(process, 120, 2500, "a simulation run in this process, after thousands of others, and in a process of its own with another layout of the memory: every result is the same to the last bit; non-trivial: a solution of 20 unknowns") {
    Job a = makeJob(g, 300);
    g.note("%s", a.show().c_str());
    const char* dump = getenv("R02_DUMP");
    if (!dump) stir(g);
    Run r(a);
    r.all();
    if (dump) {
        FILE* f = fopen(dump, "w");
        if (!f) abort();
        size_t n = r.log.v.size();
        fwrite(&n, sizeof n, 1, f);
        fwrite(r.log.v.data(), 8, n, f);
        for (auto& m : r.log.marks) fprintf(f, "%zu %s\n", m.first, m.second.c_str());
        fclose(f);
        return;
    }
    g.nontrivial(r.V.size() >= 20);
    char dir[] = "/tmp/r02XXXXXX";
    if (!mkdtemp(dir)) abort();
    std::string d = dir, cs = d + "/case", out = d + "/out";
    FILE* f = fopen(cs.c_str(), "w");
    fprintf(f, "process\n");
    for (auto x : g.rec) fprintf(f, "%llu ", (unsigned long long)x);
    fprintf(f, "\n");
    fclose(f);
    std::vector<std::string> ev{"R02_DUMP=" + out};
    for (char** e = environ; *e; e++)
        if (strncmp(*e, "PBT_", 4)) ev.push_back(*e);
    std::vector<char*> env, arg;
    for (auto& e : ev) env.push_back((char*)e.c_str());
    env.push_back(nullptr);
    std::vector<std::string> av{"/proc/self/exe", "--replay", cs, "--tmp", d};
    for (auto& e : av) arg.push_back((char*)e.c_str());
    arg.push_back(nullptr);
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 1, "/dev/null", O_WRONLY, 0);
    pid_t pid;
    int st = -1;
    if (posix_spawn(&pid, "/proc/self/exe", &fa, nullptr, arg.data(), env.data()) == 0) waitpid(pid, &st, 0);
    posix_spawn_file_actions_destroy(&fa);
    Log other;
    bool got = false;
    f = fopen(out.c_str(), "r");
    if (f) {
        size_t n;
        got = fread(&n, sizeof n, 1, f) == 1;
        other.v.resize(got ? n : 0);
        got = got && fread(other.v.data(), 8, n, f) == n;
        fclose(f);
    }
    other.marks = r.log.marks;
    std::string rm = "rm -rf -- '" + d + "'";
    if (d.substr(0, 8) == "/tmp/r02" && system(rm.c_str())) {}
    if (!got) {
        g.label("no other process");
        return;
    }
    auto diff = r.log.differs(other);
    CHECK(diff.empty(), "process", "another process gives another %s", diff.c_str());
}
