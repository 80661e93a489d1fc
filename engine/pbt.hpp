// A small property-based testing engine.
//
// A property is a function of a Gen: every random decision is a bounded integer drawn from the Gen, and the
// sequence of drawn integers (the "choices") is the test case.  A case is replayed, shrunk and fuzzed as a
// choice sequence, so shrinking always goes through the generator and never leaves its domain (the idea of
// Hypothesis' internal shrinking).  Every case runs in a forked worker: a crash, a sanitizer report, an exit or
// a case that never ends is a failure of that case like any other and is shrunk in the same way.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

struct Discard {};
struct Fail {
    std::string tag, msg;
};

inline std::string fmt(const char* f, ...) {
    va_list a, b;
    va_start(a, f);
    va_copy(b, a);
    int n = vsnprintf(nullptr, 0, f, a);
    std::string s(n, 0);
    vsnprintf(s.data(), n + 1, f, b);
    va_end(a);
    va_end(b);
    return s;
}

inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hashStr(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return mix(h);
}

class Gen {
    enum Mode { RANDOM, REPLAY, BYTES } mode;
    uint64_t state = 0;
    const std::vector<uint64_t>* seq = nullptr;
    const uint8_t* bytes = nullptr;
    size_t nbytes = 0, pos = 0;

  public:
    std::vector<uint64_t> rec;  // the choices made, after clamping
    std::vector<std::string> labels;
    std::string notes;
    bool nontriv = false;
    size_t maxChoices = 200000;

    explicit Gen(uint64_t seed) : mode(RANDOM), state(seed) {}
    explicit Gen(const std::vector<uint64_t>& s) : mode(REPLAY), seq(&s) {}
    Gen(const uint8_t* b, size_t n) : mode(BYTES), bytes(b), nbytes(n) {}

    // uniform in [0, max]
    uint64_t draw(uint64_t max) {
        if (rec.size() > maxChoices) throw Discard{};
        uint64_t v = 0;
        if (mode == RANDOM) {
            state += 0x9e3779b97f4a7c15ull;
            uint64_t r = mix(state);
            v = max == UINT64_MAX ? r : (uint64_t)(((__uint128_t)r * (max + 1)) >> 64);
        } else if (mode == REPLAY) {
            v = pos < seq->size() ? (*seq)[pos] : 0;
            pos++;
            if (v > max) v = max == UINT64_MAX ? v : v % (max + 1);
        } else {
            int n = max < 256 ? 1 : max < 65536 ? 2 : max <= UINT32_MAX ? 4 : 8;
            for (int i = 0; i < n; i++) v = v << 8 | (pos < nbytes ? bytes[pos++] : 0);
            if (v > max) v = v % (max + 1);
        }
        rec.push_back(v);
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo)); }
    bool coin(double p = 0.5) { return draw(65535) >= (uint64_t)((1 - p) * 65536); }
    // a size that is usually small, in [lo, hi]
    int size(int lo, int hi) {
        int span = hi - lo;
        switch (draw(3)) {
            case 0: return lo + (int)draw(std::min(span, 3));
            case 1: return lo + (int)draw(std::min(span, 10));
            default: return lo + (int)draw(span);
        }
    }
    double real(double lo, double hi) { return lo + (hi - lo) * ((double)draw(0xffffffffull) / 4294967296.0); }
    double logreal(double lo, double hi) { return lo * pow(hi / lo, real(0, 1)); }
    // a real number of mixed character: zero, one, small integers, fractions, arbitrary mantissas, signs, scales
    double mixed(double maxmag = 1e6) {
        double v;
        switch (draw(7)) {
            case 0: v = 0; break;
            case 1: v = 1; break;
            case 2: v = (double)draw(10); break;
            case 3: v = (double)draw(1000) / 8; break;
            case 4: v = real(0, 1); break;
            case 5: v = real(0, 100); break;
            case 6: v = logreal(1e-9, maxmag); break;
            default: v = real(0, maxmag); break;
        }
        if (v > maxmag) v = maxmag;
        return coin() ? -v : v;
    }
    template <class T>
    const T& pick(const std::vector<T>& v) {
        return v[draw(v.size() - 1)];
    }
    template <class T>
    void shuffle(std::vector<T>& v) {
        for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[draw(i - 1)]);
    }

    void label(const std::string& s) { labels.push_back(s); }
    void nontrivial(bool b = true) { nontriv = b; }
    void note(const char* f, ...) __attribute__((format(printf, 2, 3))) {
        if (notes.size() > 6000) return;
        va_list a;
        va_start(a, f);
        char buf[6000];
        vsnprintf(buf, sizeof buf, f, a);
        va_end(a);
        notes += buf;
        notes += "\n";
        static const char* echo = getenv("PBT_ECHO");  // for cases that crash
        if (echo) {
            FILE* f = fopen(echo, "a");
            if (f) fprintf(f, "%s\n", buf), fclose(f);
        }
    }
};

[[noreturn]] inline void fail(const std::string& tag, const std::string& msg) { throw Fail{tag, msg}; }

#define CHECK(cond, tag, ...)                                                 \
    do {                                                                      \
        if (!(cond)) ::pbt::fail(tag, ::pbt::fmt(__VA_ARGS__) + "   [" #cond "]"); \
    } while (0)
#define ASSUME(cond)                       \
    do {                                   \
        if (!(cond)) throw ::pbt::Discard{}; \
    } while (0)

struct Prop {
    std::string name;
    int quick, thorough;
    std::string rule;
    std::function<void(Gen&)> fn;
    int hang_s = 60;  // CPU seconds after which a case counts as never ending
};

inline std::vector<Prop>& props() {
    static std::vector<Prop> v;
    return v;
}
struct Reg {
    Reg(const char* n, int q, int t, const char* rule, std::function<void(Gen&)> f, int hang = 60) { props().push_back({n, q, t, rule, f, hang}); }
};
// cases that use more than `hang` seconds of CPU count as never ending
#define PROPERTY_H(name, quick, thorough, rule, hang)                         \
    static void prop_##name(pbt::Gen& g);                                     \
    static pbt::Reg reg_##name(#name, quick, thorough, rule, prop_##name, hang); \
    static void prop_##name([[maybe_unused]] pbt::Gen& g)
#define PROPERTY(name, quick, thorough, rule) PROPERTY_H(name, quick, thorough, rule, 60)

// ---------------------------------------------------------------------------------------------------------

enum Status { PASS = 0, FAILED = 1, DISCARDED = 2, CRASHED = 3, HUNG = 4 };

struct Outcome {
    Status status = PASS;
    std::string tag, msg, notes;
    std::vector<uint64_t> rec;
    std::vector<std::string> labels;
    bool nontriv = false;
};

inline Outcome runHere(const Prop& p, Gen& g) {
    Outcome o;
    try {
        p.fn(g);
    } catch (const Discard&) {
        o.status = DISCARDED;
    } catch (const Fail& f) {
        o.status = FAILED;
        o.tag = f.tag;
        o.msg = f.msg;
    } catch (const std::exception& e) {
        o.status = FAILED;
        o.tag = "exception";
        o.msg = std::string("unexpected exception: ") + e.what();
    } catch (...) {
        o.status = FAILED;
        o.tag = "exception";
        o.msg = "unexpected exception of unknown type";
    }
    o.notes = g.notes;
    o.rec = g.rec;
    o.labels = g.labels;
    o.nontriv = g.nontriv;
    return o;
}

inline double cpuNow() {
    struct timespec t;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
inline void armCpu(int s) {
    struct itimerval t = {};
    t.it_value.tv_sec = s;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

inline void wr(int fd, const void* p, size_t n) {
    const char* c = (const char*)p;
    while (n) {
        ssize_t k = write(fd, c, n);
        if (k < 0) {
            if (errno == EINTR) continue;
            _exit(97);
        }
        c += k;
        n -= k;
    }
}
inline void wrs(int fd, const std::string& s) {
    uint64_t n = s.size();
    wr(fd, &n, 8);
    wr(fd, s.data(), n);
}
struct Rd {
    std::string buf;
    size_t pos = 0;
    bool ok = true;
    uint64_t u64() {
        uint64_t v = 0;
        if (pos + 8 > buf.size()) {
            ok = false;
            return 0;
        }
        memcpy(&v, &buf[pos], 8);
        pos += 8;
        return v;
    }
    std::string str() {
        uint64_t n = u64();
        if (!ok || pos + n > buf.size()) {
            ok = false;
            return "";
        }
        std::string s = buf.substr(pos, n);
        pos += n;
        return s;
    }
};

inline std::string slurpFile(const std::string& f) {
    std::string s;
    FILE* h = fopen(f.c_str(), "rb");
    if (!h) return s;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n);
    fclose(h);
    return s;
}

struct Runner {
    std::string tmpdir;
    size_t memLimit = 0;  // bytes of address space per worker, 0 = none

    void childSetup(const std::string& errfile) {
        int dn = open("/dev/null", O_RDWR);
        dup2(dn, 0);
        dup2(dn, 1);
        int ef = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(ef >= 0 ? ef : dn, 2);
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        if (memLimit) {
            rl.rlim_cur = rl.rlim_max = memLimit;
            setrlimit(RLIMIT_AS, &rl);
        }
        signal(SIGVTALRM, SIG_DFL);
    }

    static std::string describe(int st) {
        if (WIFSIGNALED(st)) return fmt("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
        return fmt("exited with status %d", WEXITSTATUS(st));
    }
    static std::string errTail(const std::string& f) {
        std::string s = slurpFile(f);
        size_t k = s.find("==ERROR");
        if (k == std::string::npos) k = s.find("runtime error:");
        if (k != std::string::npos) {
            k = s.rfind('\n', k) == std::string::npos ? 0 : s.rfind('\n', k) + 1;
            s = s.substr(k, 1500);
        } else if (s.size() > 1500)
            s = s.substr(s.size() - 1500);
        return s;
    }

    // runs one case from a choice sequence in a child process
    // or the cases of several seeds one after another, up to the first that fails
    Outcome isolated(const Prop& p, const std::vector<uint64_t>& seq, const std::vector<uint64_t>& history = {}) {
        int fd[2];
        if (pipe(fd)) abort();
        std::string err = tmpdir + "/iso.err";
        pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]);
            childSetup(err);
            armCpu(p.hang_s);
            Outcome o;
            if (history.empty()) {
                Gen g(seq);
                o = runHere(p, g);
            }
            for (uint64_t s : history) {
                armCpu(p.hang_s);
                Gen g(s);
                o = runHere(p, g);
                if (bad(o)) break;
            }
            uint64_t st = o.status;
            wr(fd[1], &st, 8);
            wrs(fd[1], o.tag);
            wrs(fd[1], o.msg);
            wrs(fd[1], o.notes);
            uint64_t n = o.rec.size();
            wr(fd[1], &n, 8);
            wr(fd[1], o.rec.data(), 8 * n);
            _exit(0);
        }
        close(fd[1]);
        Rd r;
        char b[65536];
        ssize_t k;
        while ((k = read(fd[0], b, sizeof b)) > 0 || (k < 0 && errno == EINTR))
            if (k > 0) r.buf.append(b, k);
        close(fd[0]);
        int st;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        Outcome o;
        o.status = (Status)r.u64();
        o.tag = r.str();
        o.msg = r.str();
        o.notes = r.str();
        uint64_t n = r.u64();
        for (uint64_t i = 0; i < n && r.ok; i++) o.rec.push_back(r.u64());
        if (!r.ok) {
            o = Outcome();
            o.rec = seq;
            crashOutcome(o, st, err);
        }
        return o;
    }
    static void crashOutcome(Outcome& o, int st, const std::string& err) {
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM) {
            o.status = HUNG;
            o.tag = "hang";
            o.msg = "the case does not end";
        } else {
            o.status = CRASHED;
            o.tag = "crash";
            o.msg = "the process " + describe(st) + "\n" + errTail(err);
        }
    }

    static bool bad(const Outcome& o) { return o.status == FAILED || o.status == CRASHED || o.status == HUNG; }

    static double now() {
        struct timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + 1e-9 * t.tv_nsec;
    }

    Outcome shrink(const Prop& p, Outcome best, int& attempts, double seconds) {
        double end = now() + seconds;
        auto trySeq = [&](const std::vector<uint64_t>& s) {
            if (s == best.rec) return false;
            attempts++;
            Outcome o = isolated(p, s);
            if (!bad(o) || o.tag != best.tag) return false;
            if (o.status == CRASHED) {
                // the recorded choices are lost in a crash: keep the sequence that was asked for
            }
            if (o.rec.size() > best.rec.size() || (o.rec.size() == best.rec.size() && o.rec >= best.rec)) return false;
            best = o;
            return true;
        };
        if (best.status == HUNG) return best;
        bool progress = true;
        while (progress && now() < end) {
            progress = false;
            for (size_t blk = std::max<size_t>(1, best.rec.size() / 2); blk >= 1; blk /= 2) {  // delete blocks
                for (size_t i = 0; i + blk <= best.rec.size() && now() < end;) {
                    auto s = best.rec;
                    s.erase(s.begin() + i, s.begin() + i + blk);
                    if (trySeq(s)) progress = true;
                    else i += std::max<size_t>(1, blk / 2);
                }
                if (now() >= end) break;
            }
            for (size_t blk : {32, 8, 2}) {  // zero blocks
                for (size_t i = 0; i < best.rec.size() && now() < end; i += blk) {
                    auto s = best.rec;
                    bool any = false;
                    for (size_t j = i; j < std::min(s.size(), i + blk); j++) any |= s[j] != 0, s[j] = 0;
                    if (any && trySeq(s)) progress = true;
                }
            }
            for (size_t i = 0; i < best.rec.size() && now() < end; i++) {  // make single choices small
                uint64_t lo = 0;
                if (best.rec[i] == 0) continue;
                auto s = best.rec;
                s[i] = 0;
                if (trySeq(s)) {
                    progress = true;
                    continue;
                }
                for (int it = 0; it < 40 && i < best.rec.size() && best.rec[i] > lo + 1 && now() < end; it++) {
                    uint64_t mid = lo + (best.rec[i] - lo) / 2;
                    s = best.rec;
                    s[i] = mid;
                    if (trySeq(s)) progress = true;
                    else lo = mid;
                }
            }
        }
        return best;
    }
};

struct PropStats {
    uint64_t slowest = 0;
    int64_t slowestCase = -1;
    uint64_t evaluations = 0, discarded = 0;
    std::unordered_set<uint64_t> nontriv;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
};

inline std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') o += '\\', o += c;
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
        else o += c;
    }
    return o;
}

inline int runMain(int argc, char** argv) {
    uint64_t seed = 1;
    std::string tier = "quick", out, only, replay, tmp = "/tmp", cases, history;
    int jobs = 8;
    double scale = 1, maxWall = 600, shrinkS = 40;
    Runner R;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--tier") tier = val();
        else if (a == "--out") out = val();
        else if (a == "--only") only = val();
        else if (a == "--replay") replay = val();
        else if (a == "--tmp") tmp = val();
        else if (a == "--jobs") jobs = atoi(val().c_str());
        else if (a == "--scale") scale = atof(val().c_str());
        else if (a == "--maxwall") maxWall = atof(val().c_str());
        else if (a == "--shrink") shrinkS = atof(val().c_str());
        else if (a == "--mem") R.memLimit = (size_t)(atof(val().c_str()) * (1ull << 30));
        else if (a == "--case") cases = val();
        else if (a == "--history") history = val();
    }
    R.tmpdir = tmp;
    if (!replay.empty()) {
        // format: "<prop>\n<choice> <choice> ..."
        std::istringstream is(slurpFile(replay));
        std::string name;
        std::getline(is, name);
        std::vector<uint64_t> seq;
        uint64_t v;
        while (is >> v) seq.push_back(v);
        for (auto& p : props())
            if (p.name == name) {
                Outcome o = R.isolated(p, seq);
                printf("%s\nstatus %s tag %s\n%s\n", o.notes.c_str(), o.status == PASS ? "pass" : o.status == DISCARDED ? "discarded" : "FAIL", o.tag.c_str(), o.msg.c_str());
                return Runner::bad(o) ? 1 : 0;
            }
        fprintf(stderr, "no such property %s\n", name.c_str());
        return 2;
    }
    struct Shared {
        std::atomic<int64_t> cur;
    };
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string js = "{\"props\":[";
    std::string viol;
    bool first = true;
    int nviol = 0;
    double t0 = Runner::now();
    for (auto& p : props()) {
        if (!only.empty() && p.name != only) continue;
        if (nviol >= 2) break;
        double pt0 = Runner::now();
        int n = std::max(1, (int)((tier == "thorough" ? p.thorough : p.quick) * scale));
        uint64_t pseed = mix(seed * 1000003 + 17) ^ hashStr(p.name);
        auto caseSeed = [&](int64_t i) { return mix(pseed + mix((uint64_t)i)); };
        if (!cases.empty()) {
            int64_t i = atoll(cases.c_str());
            Gen g(caseSeed(i));
            Outcome o = runHere(p, g);
            printf("%s\nstatus %d %s %s\n", o.notes.c_str(), o.status, o.tag.c_str(), o.msg.c_str());
            continue;
        }
        if (!history.empty()) {
            std::istringstream is(history);
            std::vector<uint64_t> h;
            int64_t i;
            while (is >> i) h.push_back(caseSeed(i));
            Outcome o = R.isolated(p, {}, h);
            printf("%s\nstatus %s tag %s\n%s\n", o.notes.c_str(), Runner::bad(o) ? "FAIL" : "pass", o.tag.c_str(), o.msg.c_str());
            return Runner::bad(o) ? 1 : 0;
        }
        PropStats S;
        int64_t failIdx = -1;
        Outcome failOut;
        int J = std::min(jobs, n);
        std::vector<pid_t> pid(J, -1);
        std::vector<int> fds(J, -1);
        std::vector<std::string> bufs(J);
        std::vector<int> status(J, 0);
        bool timedOut = false;
        for (int w = 0; w < J; w++) {
            int fd[2];
            if (pipe(fd)) abort();
            sh[w].cur = -1;
            pid_t c = fork();
            if (c == 0) {
                close(fd[0]);
                for (int q = 0; q < w; q++) close(fds[q]);
                R.childSetup(tmp + fmt("/w%d.err", w));
                for (int64_t i = w; i < n; i += J) {
                    sh[w].cur = i;
                    armCpu(p.hang_s);
                    double c0 = cpuNow();
                    Gen g(caseSeed(i));
                    Outcome o = runHere(p, g);
                    uint64_t h = 1469598103934665603ull;
                    for (uint64_t v : o.rec) h = mix(h ^ v);
                    uint64_t hd[5] = {(uint64_t)i, (uint64_t)o.status, (uint64_t)o.nontriv, h, (uint64_t)(1000 * (cpuNow() - c0))};
                    std::string rec((char*)hd, sizeof hd);
                    std::string lab;
                    for (auto& l : o.labels) lab += l + "\n";
                    auto adds = [&](const std::string& s) {
                        uint64_t k = s.size();
                        rec.append((char*)&k, 8);
                        rec += s;
                    };
                    adds(lab);
                    bool keep = Runner::bad(o) || (o.nontriv && i < 64);
                    adds(keep ? o.notes : "");
                    adds(o.tag);
                    adds(o.msg);
                    adds(std::string((char*)o.rec.data(), Runner::bad(o) ? o.rec.size() * 8 : 0));
                    wrs(fd[1], rec);
                    if (Runner::bad(o)) _exit(1);
                }
                sh[w].cur = -2;
                _exit(0);
            }
            close(fd[1]);
            pid[w] = c;
            fds[w] = fd[0];
        }
        int live = J;
        auto consume = [&](int w) {
            auto& b = bufs[w];
            size_t pos = 0;
            while (b.size() - pos >= 8) {
                uint64_t k;
                memcpy(&k, &b[pos], 8);
                if (b.size() - pos - 8 < k) break;
                Rd r;
                r.buf = b.substr(pos + 8, k);
                pos += 8 + k;
                int64_t idx = r.u64();
                Status st = (Status)r.u64();
                bool nt = r.u64();
                uint64_t h = r.u64(), ms = r.u64();
                if (ms > S.slowest) S.slowest = ms, S.slowestCase = idx;
                std::string lab = r.str(), notes = r.str(), tag = r.str(), msg = r.str(), seqb = r.str();
                S.evaluations++;
                if (st == DISCARDED) S.discarded++;
                else if (nt) S.nontriv.insert(h);
                std::istringstream is(lab);
                std::string l;
                while (std::getline(is, l)) S.labels[l]++;
                if (!notes.empty() && S.samples.size() < 3 && st == PASS) S.samples.push_back(notes.substr(0, 1500));
                if (st == FAILED && (failIdx < 0 || idx < failIdx)) {
                    failIdx = idx;
                    failOut = Outcome();
                    failOut.status = st;
                    failOut.tag = tag;
                    failOut.msg = msg;
                    failOut.notes = notes;
                    failOut.rec.resize(seqb.size() / 8);
                    memcpy(failOut.rec.data(), seqb.data(), seqb.size());
                }
            }
            b.erase(0, pos);
        };
        while (live > 0) {
            std::vector<struct pollfd> pf;
            std::vector<int> who;
            for (int w = 0; w < J; w++)
                if (fds[w] >= 0) pf.push_back({fds[w], POLLIN, 0}), who.push_back(w);
            poll(pf.data(), pf.size(), 500);
            for (size_t k = 0; k < pf.size(); k++)
                if (pf[k].revents) {
                    int w = who[k];
                    char b[65536];
                    ssize_t m = read(fds[w], b, sizeof b);
                    if (m > 0) {
                        bufs[w].append(b, m);
                        consume(w);
                    } else if (m == 0) {
                        close(fds[w]);
                        fds[w] = -1;
                        while (waitpid(pid[w], &status[w], 0) < 0 && errno == EINTR) {}
                        live--;
                        bool planned = WIFSIGNALED(status[w]) && WTERMSIG(status[w]) == SIGKILL && (timedOut || failIdx >= 0);
                        if (!(WIFEXITED(status[w]) && WEXITSTATUS(status[w]) == 0 && sh[w].cur == -2) && !(WIFEXITED(status[w]) && WEXITSTATUS(status[w]) == 1 && failIdx >= 0) && !planned) {
                            int64_t idx = sh[w].cur;
                            if (idx >= 0 && failIdx < 0) {
                                S.evaluations++;
                                failIdx = idx;
                                Gen g(caseSeed(idx));
                                failOut = Outcome();
                                Runner::crashOutcome(failOut, status[w], tmp + fmt("/w%d.err", w));
                            }
                        }
                    }
                }
            if (failIdx >= 0)
                for (int w = 0; w < J; w++)
                    if (fds[w] >= 0) kill(pid[w], SIGKILL);
            if (Runner::now() - t0 > maxWall && !timedOut) {
                timedOut = true;
                for (int w = 0; w < J; w++)
                    if (fds[w] >= 0) kill(pid[w], SIGKILL);
            }
        }
        if (failIdx >= 0) {
            nviol++;
            if (failOut.rec.empty()) {
                // crashed or hung: run it again in a child that writes out the choices made up to the crash
                int fd[2];
                if (pipe(fd)) abort();
                pid_t c = fork();
                if (c == 0) {
                    close(fd[0]);
                    R.childSetup(tmp + "/rec.err");
                    armCpu(p.hang_s);
                    Gen g(caseSeed(failIdx));
                    g.rec.reserve(g.maxChoices + 16);
                    // the vector lives in this process; a handler writes it out when the case crashes
                    static Gen* gp;
                    static int gfd;
                    gp = &g;
                    gfd = fd[1];
                    auto dump = [](int) {
                        size_t k = gp->rec.size() * 8;
                        const char* q = (const char*)gp->rec.data();
                        while (k) {
                            ssize_t m = write(gfd, q, k);
                            if (m <= 0) break;
                            q += m;
                            k -= m;
                        }
                        _exit(0);
                    };
                    stack_t ss = {};
                    ss.ss_size = 1 << 16;
                    ss.ss_sp = malloc(ss.ss_size);
                    sigaltstack(&ss, nullptr);
                    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) {
                        struct sigaction sa = {};
                        sa.sa_handler = dump;
                        sa.sa_flags = SA_ONSTACK;
                        sigaction(s, &sa, nullptr);
                    }
                    static void (*d)(int) = dump;
                    atexit([] { d(0); });
                    runHere(p, g);
                    dump(0);
                }
                close(fd[1]);
                std::string b;
                char t[65536];
                ssize_t m;
                while ((m = read(fd[0], t, sizeof t)) > 0) b.append(t, m);
                close(fd[0]);
                int st;
                waitpid(c, &st, 0);
                failOut.rec.resize(b.size() / 8);
                if (!failOut.rec.empty()) memcpy(failOut.rec.data(), b.data(), b.size() / 8 * 8);
            }
            Outcome orig = failOut;
            int attempts = 0;
            Outcome re = R.isolated(p, orig.rec);
            int hits = 0, tries = 0;
            if (Runner::bad(re)) {
                if (re.rec.empty()) re.rec = orig.rec;
                Outcome sm = R.shrink(p, re, attempts, shrinkS);
                int lim = sm.status == HUNG ? 1 : 3;
                for (tries = 0; tries < lim; tries++) {
                    Outcome o = R.isolated(p, sm.rec);
                    if (Runner::bad(o)) {
                        hits++;
                        if (!o.notes.empty()) sm.notes = o.notes;
                        sm.msg = o.msg;
                    }
                }
                failOut = sm;
                if (hits < lim) {
                    failOut = re;
                    for (hits = 0, tries = 0; tries < 3; tries++) hits += Runner::bad(R.isolated(p, orig.rec));
                }
            } else {
                for (tries = 0; tries < 20; tries++) hits += Runner::bad(R.isolated(p, orig.rec));
            }
            // a case that passes on its own may fail after others in the same process: look for as few of those as possible
            std::vector<int64_t> hist;
            if (hits == 0 && failOut.status != HUNG) {
                double hend = Runner::now() + 2 * shrinkS;
                auto run = [&](const std::vector<int64_t>& h) {
                    std::vector<uint64_t> seeds;
                    for (int64_t i : h) seeds.push_back(caseSeed(i));
                    return R.isolated(p, {}, seeds);
                };
                for (size_t len = 2; hist.empty() && Runner::now() < hend; len *= 2) {
                    std::vector<int64_t> h;
                    for (int64_t i = failIdx; i >= 0 && h.size() < len; i -= J) h.insert(h.begin(), i);
                    Outcome o = run(h);
                    if (Runner::bad(o)) hist = h, failOut.msg = o.msg, failOut.tag = o.tag, failOut.notes = o.notes;
                    if (h.size() < len) break;
                }
                for (size_t i = 0; i < hist.size() && hist.size() > 1 && Runner::now() < hend;) {
                    auto h = hist;
                    h.erase(h.begin() + i);
                    Outcome o = run(h);
                    if (Runner::bad(o) && o.tag == failOut.tag) hist = h, failOut.msg = o.msg, failOut.notes = o.notes;
                    else i++;
                }
                // it has to fail every time
                for (tries = 0; !hist.empty() && tries < 3; tries++) hits += Runner::bad(run(hist));
                if (hits < 3) hits = 0, hist.clear();
            }
            std::string hs;
            for (int64_t i : hist) hs += fmt("%" PRId64 " ", i);
            std::string ss;
            if (!hist.empty()) failOut.rec.clear(), failOut.notes = "after the cases " + hs + "in one process: " + failOut.notes;
            for (uint64_t v : failOut.rec) ss += fmt("%" PRIu64 " ", v);
            viol += fmt("%s{\"prop\":\"%s\",\"case\":%" PRId64 ",\"tag\":\"%s\",\"hits\":%d,\"tries\":%d,\"shrinkattempts\":%d,\"msg\":\"", viol.empty() ? "" : ",", p.name.c_str(), failIdx, jesc(failOut.tag).c_str(), hits, tries, attempts) + jesc(failOut.msg) +
                    "\",\"notes\":\"" + jesc(failOut.notes) + "\",\"history\":\"" + hs + "\",\"choices\":\"" + ss + "\"}";
        }
        js += fmt("%s{\"name\":\"%s\",\"planned\":%d,\"evaluations\":%" PRIu64 ",\"discarded\":%" PRIu64 ",\"nontrivial\":%zu,\"wall\":%.2f,\"slowest_s\":%.2f,\"slowest_case\":%" PRId64 ",\"timedout\":%s,\"rule\":\"", first ? "" : ",", p.name.c_str(), n, S.evaluations, S.discarded, S.nontriv.size(), Runner::now() - pt0, S.slowest / 1000., S.slowestCase, timedOut ? "true" : "false") + jesc(p.rule) + "\",\"labels\":{";
        first = false;
        bool f2 = true;
        for (auto& [l, c] : S.labels) js += fmt("%s\"%s\":%" PRIu64, f2 ? "" : ",", jesc(l).c_str(), c), f2 = false;
        js += "},\"samples\":[";
        for (size_t i = 0; i < S.samples.size(); i++) js += std::string(i ? "," : "") + "\"" + jesc(S.samples[i]) + "\"";
        js += "]}";
    }
    js += "],\"violations\":[" + viol + "]}\n";
    if (!out.empty()) {
        FILE* f = fopen(out.c_str(), "w");
        fputs(js.c_str(), f);
        fclose(f);
    } else if (cases.empty())
        fputs(js.c_str(), stdout);
    return viol.empty() ? 0 : 1;
}

}  // namespace pbt

#ifdef PBT_FUZZ
// the same property as a coverage-guided fuzz target; PBT_PROP names it
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    static pbt::Prop* p = nullptr;
    if (!p) {
        const char* n = getenv("PBT_PROP");
        for (auto& q : pbt::props())
            if (!n || q.name == n) {
                p = &q;
                break;
            }
        if (!p) abort();
    }
    pbt::Gen g(data, size);
    g.maxChoices = 20000;
    pbt::Outcome o = pbt::runHere(*p, g);
    if (o.status == pbt::FAILED) {
        const char* d = getenv("PBT_FAILFILE");
        if (d) {
            FILE* f = fopen(d, "w");
            fprintf(f, "%s\n", p->name.c_str());
            for (uint64_t v : o.rec) fprintf(f, "%" PRIu64 " ", v);
            fprintf(f, "\n");
            fclose(f);
        }
        fprintf(stderr, "PROPERTY FAILED %s: %s\n%s\n", o.tag.c_str(), o.msg.c_str(), o.notes.c_str());
        abort();
    }
    return o.status == pbt::DISCARDED ? -1 : 0;
}
#else
int main(int argc, char** argv) { return pbt::runMain(argc, argv); }
#endif
