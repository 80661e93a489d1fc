#!/usr/bin/env python3
"""Builds and runs the check of one property against /repo's working tree.

  check.py <ID>                 run it (VERIF_TIER = quick | thorough, VERIF_SEED = N), rewrite evidence/<ID>.json
  check.py --replay <file>      run one saved failing case again
  check.py --build-all          compile everything once (used to see that the toolchain works)
"""
import concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = REPO + "/lib/nikfemm"
BUILD = os.environ.get("VERIF_BUILD", HERE + "/build")
sys.path.insert(0, HERE)

BASE = ["-std=c++20", "-mavx", "-fPIC", "-w", "-g1", "-I" + LIB + "/src", "-I" + LIB + "/include"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
VARIANTS = {
    # name: compiler, flags of the library, flags of triangle.cpp, flags of the harness, link flags
    # triangle.cpp is third-party; its exact arithmetic reads one element past a local array (the value is not used)
    "opt": ("g++", ["-O2", "-D_GLIBCXX_ASSERTIONS"], ["-O2"], ["-O1", "-D_GLIBCXX_ASSERTIONS"], []),
    "asan": ("g++", ["-O1", "-D_GLIBCXX_ASSERTIONS"] + ASAN, ["-O2"], ["-O1", "-D_GLIBCXX_ASSERTIONS"] + ASAN, ASAN),
    "cv": ("g++", ["-O2", "-D_GLIBCXX_ASSERTIONS", "-DNIKFEMM_USE_OPENCV"], ["-O2"], ["-O1", "-D_GLIBCXX_ASSERTIONS", "-DNIKFEMM_USE_OPENCV"], []),
    "fuzz": ("clang++", ["-O1", "-fsanitize=fuzzer-no-link,address"], ["-O1", "-fsanitize=fuzzer-no-link"],
             ["-O1", "-DPBT_FUZZ", "-fsanitize=fuzzer-no-link,address"], ["-fsanitize=fuzzer,address"]),
}
SAN_ENV = {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:handle_abort=0:allocator_may_return_null=1:hard_rss_limit_mb=3500",
           "UBSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:print_stacktrace=1", "LC_ALL": "C"}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def lib_sources():
    return sorted(glob.glob(LIB + "/src/**/*.cpp", recursive=True))


def digest(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def tree_files():
    fs = []
    for pat in ("/src/**/*", "/include/**/*"):
        fs += [f for f in glob.glob(LIB + pat, recursive=True) if os.path.isfile(f)]
    return fs


def prune(keep):
    """keeps the few most recent build folders"""
    try:
        ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d != "objs"), key=os.path.getmtime)
        for d in ds[:-12]:
            if d != keep:
                shutil.rmtree(d, ignore_errors=True)
        os_ = sorted((os.path.join(BUILD, "objs", f) for f in os.listdir(os.path.join(BUILD, "objs"))), key=os.path.getmtime)
        for f in os_[:-300]:
            os.unlink(f)
    except OSError:
        pass


def compile_cached(job, key):
    """compiles one source of the library, or takes the object of the same source, headers and flags"""
    o = job[job.index("-o") + 1]
    c = os.path.join(BUILD, "objs", key + ".o")
    if os.path.exists(c):
        try:
            shutil.copyfile(c, o)
            os.utime(c)
            return subprocess.CompletedProcess(job, 0, "")
        except OSError:
            pass
    r = sh(job)
    if r.returncode == 0:
        try:
            os.makedirs(os.path.dirname(c), exist_ok=True)
            t = tempfile.mktemp(dir=os.path.dirname(c))
            shutil.copyfile(o, t)
            os.rename(t, c)
        except OSError:
            pass
    return r


def pkg_opencv(what):
    return sh(["pkg-config", what, "opencv4"]).stdout.split()


def build(harness, variant):
    """compiles the library and the harness, returns the path of the binary"""
    cxx, lf, tf, hf, ln = [x if isinstance(x, str) else list(x) for x in VARIANTS[variant]]
    binding = []
    if harness.startswith("P"):
        # the harness embeds the interpreter and the module's source
        binding = [REPO + "/python/nikfemm.cpp"]
        pyinc = sh(["python3.12-config", "--includes"]).stdout.split()
        hf += pyinc
        ln += sh(["python3.12-config", "--embed", "--ldflags"]).stdout.split()
    if variant == "cv":
        inc = [x for x in pkg_opencv("--cflags")]
        lf += inc
        hf += inc
        ln += ["-lopencv_core", "-lopencv_imgproc", "-lopencv_imgcodecs", "-lopencv_highgui"]
    flags = [cxx, BASE, lf, tf]
    libdir = os.path.join(BUILD, "lib-%s-%s" % (variant, digest(tree_files(), flags)))
    os.makedirs(BUILD, exist_ok=True)
    hsrc = os.path.join(HERE, "checks", harness + ".cpp")
    hd = glob.glob(HERE + "/engine/*.hpp") + glob.glob(HERE + "/checks/*.hpp") + [hsrc]
    binp = os.path.join(libdir, harness + "-" + digest(hd + binding, [hf, ln]))
    jobs = []
    if not os.path.isdir(libdir):
        tmp = tempfile.mkdtemp(dir=BUILD)
    else:
        tmp = None
    work = tmp or libdir
    objs, keys = [], {}
    heads = digest([f for f in tree_files() if not f.endswith(".cpp")], [])
    for i, s in enumerate(lib_sources()):
        o = os.path.join(work, "%03d_%s.o" % (i, os.path.basename(s)))
        objs.append(o)
        if tmp:
            fl = BASE + (tf if os.path.basename(s) == "triangle.cpp" else lf)
            jobs.append([cxx] + fl + ["-c", s, "-o", o])
            keys[o] = digest([s], [cxx, fl, heads])
    ho = os.path.join(work, os.path.basename(binp) + ".o")
    po = [binp + ".py.o"] if binding else []
    if po and not os.path.exists(binp):
        po = [os.path.join(work, os.path.basename(po[0]))]
        # as setup.py does, with the language version of the compiler
        jobs.append([cxx, "-fPIC", "-w", "-g1", "-I" + LIB + "/include"] + [f for f in lf if f != "-D_GLIBCXX_ASSERTIONS"] + pyinc + ["-c", binding[0], "-o", po[0]])
    if not os.path.exists(binp):
        jobs.append([cxx] + BASE + hf + ["-I" + HERE + "/engine", "-c", hsrc, "-o", ho])
    if jobs:
        jobs.sort(key=lambda j: 0 if "triangle.cpp" in j[-3] or j[-3] == hsrc else 1)
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            for r, j in zip(ex.map(lambda j: compile_cached(j, keys[j[-1]]) if j[-1] in keys else sh(j), jobs), jobs):
                if r.returncode:
                    print(r.stdout[-4000:], file=sys.stderr)
                    print("check: BUILD FAILED: " + " ".join(j), file=sys.stderr)
                    if tmp:
                        shutil.rmtree(tmp, ignore_errors=True)
                    sys.exit(2)
    if not os.path.exists(binp):
        out = os.path.join(work, os.path.basename(binp))
        r = sh([cxx] + [ho] + po + objs + ln + ["-o", out])
        if r.returncode:
            print(r.stdout[-4000:], file=sys.stderr)
            if tmp:
                shutil.rmtree(tmp, ignore_errors=True)
            sys.exit(2)
    if tmp:
        try:
            os.rename(tmp, libdir)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
            if not os.path.exists(binp):
                return build(harness, variant)
    prune(libdir)
    return binp


def env():
    e = dict(os.environ)
    e.update(SAN_ENV)
    return e


def known(pid):
    """known findings of a property: list of dicts with tag/key/description"""
    out = []
    try:
        for l in open(HERE + "/known_findings.txt"):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                d = {}
                for w in l.split()[1:]:
                    if "=" in w:
                        k, v = w.split("=", 1)
                        d.setdefault(k, v)
                d["line"] = l
                out.append(d)
    except OSError:
        pass
    return out


def save_replay(pid, kind, harness, variant, v):
    d = HERE + "/replays"
    os.makedirs(d, exist_ok=True)
    name = "%s-%s-%s.json" % (pid, v["prop"], hashlib.sha256((v.get("choices", "") + v.get("history", "") + v["tag"]).encode()).hexdigest()[:10])
    p = os.path.join(d, name)
    w = dict(v)
    w.update(property=pid, kind=kind, harness=harness, variant=variant, how="python3 check.py --replay " + p)
    with open(p, "w") as f:
        json.dump(w, f, indent=1)
    return p


def run_cpp(pid, c, tier, seed):
    """returns (props, violations)"""
    variant = c.get("variant", "opt")
    b = build(c["harness"], variant)
    tmp = tempfile.mkdtemp(prefix="pbt")
    try:
        out = tmp + "/out.json"
        cmd = [b, "--seed", str(seed), "--tier", tier, "--out", out, "--tmp", tmp, "--jobs", "8",
               "--maxwall", "3000" if tier == "thorough" else "420", "--shrink", "120" if tier == "thorough" else "30"]
        if variant != "asan":
            cmd += ["--mem", "6"]
        r = sh(cmd, env=env())
        if not os.path.exists(out):
            print(r.stdout[-3000:], file=sys.stderr)
            print("check: the harness did not finish (%s)" % r.returncode, file=sys.stderr)
            sys.exit(2)
        j = json.load(open(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for v in j["violations"]:
        v["_save"] = ("cpp", c["harness"], variant)
        v["seed"] = seed
    return j["props"], j["violations"]


def fuzz_cpp(pid, c, seed):
    """thorough tier: the same properties as libFuzzer targets, coverage guided"""
    names = c.get("fuzz", [])
    if not names:
        return [], []
    b = build(c["harness"], "fuzz")
    props, viol = [], []

    def one(name):
        tmp = tempfile.mkdtemp(prefix="pbtf")
        try:
            corpus = tmp + "/corpus"
            os.makedirs(corpus)
            e = env()
            ff = tmp + "/fail.txt"
            e.update(PBT_PROP=name, PBT_FAILFILE=ff)
            e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=3500"
            p = subprocess.run([b, "-seed=%d" % (seed % 2**31 or 1), "-max_total_time=%d" % c.get("fuzz_s", 240), "-max_len=4096", "-timeout=120",
                                "-rss_limit_mb=4000", "-close_fd_mask=1", "-print_final_stats=1", "-artifact_prefix=" + tmp + "/", corpus],
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e, cwd=tmp)
            t = p.stderr.decode("latin1")
            ev = 0
            for l in t.splitlines():
                if l.startswith("stat::number_of_executed_units:"):
                    ev = int(l.split()[-1])
                elif l.startswith("#") and not ev:
                    pass
            feats = [l for l in t.splitlines() if " cov: " in l]
            pr = dict(name="libFuzzer:" + name, evaluations=ev, discarded=0, nontrivial=len(os.listdir(corpus)), wall=c.get("fuzz_s", 240), labels={}, samples=[feats[-1]] if feats else [],
                      rule="libFuzzer on the choice sequence; non-trivial: input kept for new coverage")
            vs = []
            if p.returncode and "ALARM" not in t and "out-of-memory" not in t:
                ch = ""
                if os.path.exists(ff):
                    ch = open(ff).read().split("\n", 1)[1].strip()
                vs.append(dict(prop=name, tag="fuzz", msg=t[-3000:], notes="found by libFuzzer", choices=ch, hits=3, tries=3, case=-1))
            return pr, vs
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        for pr, vs in ex.map(one, names):
            props.append(pr)
            for v in vs:
                v["_save"] = ("cpp", c["harness"], c.get("variant", "opt"))
                # a failing input counts when the ordinary build of the property fails on it as well
                if v["choices"] and not replay_cpp(c["harness"], c.get("variant", "opt"), v)[0]:
                    continue
                viol.append(v)
    return props, viol


def replay_cpp(harness, variant, v):
    b = build(harness, variant)
    tmp = tempfile.mkdtemp(prefix="pbtr")
    try:
        with open(tmp + "/r", "w") as f:
            f.write(v["prop"] + "\n" + v["choices"] + "\n")
        e = env()
        if not v.get("notes"):
            e["PBT_ECHO"] = tmp + "/notes"  # the case crashed before it could tell what it was
        how = ["--replay", tmp + "/r"]
        if v.get("history"):  # cases that only fail one after another in the same process
            how = ["--only", v["prop"], "--seed", str(v["seed"]), "--history", v["history"]]
        r = sh([b] + how + ["--tmp", tmp], env=e)
        n = open(tmp + "/notes", errors="replace").read() if os.path.exists(tmp + "/notes") else ""
        return r.returncode == 1, n + r.stdout
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    from registry import CHECKS
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        v = json.load(open(sys.argv[2]))
        if v["kind"] == "cpp":
            bad, out = replay_cpp(v["harness"], v["variant"], v)
        print(out)
        print(("VIOLATION property=%s replay=%s" % (v["property"], sys.argv[2])) if bad else "the case passes")
        sys.exit(1 if bad else 0)
    if sys.argv[1] == "--setup":
        # nothing is installed: every check builds what it needs from the working tree; see that the tools are here
        for t in ("g++", "clang++", "python3", "pkg-config"):
            if not shutil.which(t):
                sys.exit("missing: " + t)
        os.makedirs(BUILD, exist_ok=True)
        print("tools found; %d sources, %d checks" % (len(lib_sources()), len(CHECKS)))
        return
    if sys.argv[1] == "--build-all":
        for pid, c in CHECKS.items():
            if "harness" in c:
                print(build(c["harness"], c.get("variant", "opt")))
        return
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[pid]
    t0 = time.time()
    props, viol = [], []
    if "harness" in c:
        props, viol = run_cpp(pid, c, tier, seed)
        if tier == "thorough" and not viol:
            p2, v2 = fuzz_cpp(pid, c, seed)
            props += p2
            viol += v2
    kn = known(pid)
    new = []
    for v in viol:
        if v["hits"] == 0:
            print("check: %s/%s failed once (case %s, %s) and never again on replay; not reported\n%s" % (pid, v["prop"], v["case"], v["tag"], v["msg"]), file=sys.stderr)
            continue
        new.append(v)
    for k in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["line"]))
    # evidence
    samples = []
    for p in props:
        for s in p["samples"][:2]:
            samples.append({"part": p["name"], "case": s})
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=sum(p["evaluations"] for p in props), distinct_nontrivial=sum(p["nontrivial"] for p in props),
                            rule=" || ".join("%s: %s" % (p["name"], p["rule"]) for p in props), samples=samples or ["none"],
                            parts=[{k: p[k] for k in ("name", "evaluations", "discarded", "nontrivial", "wall", "slowest_s", "slowest_case", "labels") if k in p} for p in props]),
              assumptions=c.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open(HERE + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
    for v in new:
        if not v["notes"] and v["_save"][0] == "cpp" and v["tag"] != "hang":
            v["notes"] = replay_cpp(v["_save"][1], v["_save"][2], v)[1]
        p = save_replay(pid, *v.pop("_save"), v)
        print("--- %s/%s case %s [%s]\n%s\n%s" % (pid, v["prop"], v["case"], v["tag"], v["notes"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
    for p in props:
        print("%s/%s: %d cases, %d discarded, %d distinct non-trivial, %.1f s, slowest case %s: %s s %s" % (pid, p["name"], p["evaluations"], p["discarded"], p["nontrivial"], p["wall"], p.get("slowest_case", "-"), p.get("slowest_s", "-"), dict(sorted(p["labels"].items()))))
    print("%s: %s in %.1f s" % (pid, "VIOLATED" if new else "held", time.time() - t0))
    sys.exit(1 if new else 0)


if __name__ == "__main__":
    main()
