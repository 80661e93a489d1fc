#!/usr/bin/env python3
"""plant.py ID... : confirms planted bugs in scratch copies of /repo (bind-mounted over /repo in a mount namespace of their own)
and runs the check of their property on them. Several run at the same time with -j N; --no-check skips the check; --demo-only the tests too."""
import concurrent.futures, json, os, shutil, subprocess, sys
SEED = "/verif/seeded"
SCRIPT = r'''
set -u
mount --bind "$T/repo" /repo || exit 90
cd /repo
bash "$D/demo.sh" > "$T/demo0" 2>&1; echo "demo0 $?"
git apply "$D/patch.diff" || { echo "apply failed"; exit 91; }
bash /opt/vp/build.sh > "$T/build" 2>&1 || { echo "build failed"; tail -5 "$T/build"; exit 92; }
if [ "$TESTS" = 1 ]; then bash /opt/vp/test.sh "$T/out.json" > "$T/tests" 2>&1; fi
bash "$D/demo.sh" > "$T/demo1" 2>&1; echo "demo1 $?"
if [ "$CHECK" = 1 ]; then
  VERIF_BUILD="$T/build-checks" VERIF_EVIDENCE="$T" timeout 900 python3 "$T/verif/check.py" "$P" > "$T/check" 2>&1; echo "check $?"
fi
'''


def run(i, tests, check, props=None):
    d = SEED + "/" + i
    meta = json.load(open(d + "/meta.json"))
    T = "/tmp/plant/" + i
    shutil.rmtree(T, ignore_errors=True)
    os.makedirs(T)
    subprocess.run(["cp", "-a", "/repo", T + "/repo"], check=True)
    shutil.copytree(d, T + "/demo")
    subprocess.run(["rsync", "-a", "--exclude=build", "--exclude=.git", "--exclude=seeded", "--exclude=replays", "--exclude=evidence", "/verif/", T + "/verif/"]) if shutil.which("rsync") else \
        shutil.copytree("/verif", T + "/verif", ignore=shutil.ignore_patterns("build", ".git", "seeded", "replays", "evidence"))
    e = dict(os.environ, T=T, D=T + "/demo", P=meta["property"], TESTS="1" if tests else "0", CHECK="1" if check else "0", VERIF_SEED="1", VERIF_TIER="quick")
    r = subprocess.run(["unshare", "-m", "bash", "-c", SCRIPT], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = r.stdout
    res = dict(w.split() for w in out.splitlines() if len(w.split()) == 2)
    ok = res.get("demo0") == "0" and res.get("demo1") not in (None, "0")
    tm = ""
    if tests:
        try:
            o = json.load(open(T + "/out.json"))
            st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            miss = [t for t in st if t not in o["passed"]]
            tm = "tests ok" if not miss else "TESTS FAIL %s" % miss
            ok = ok and not miss
        except OSError:
            tm, ok = "no tests", False
    det = ""
    if check:
        c = open(T + "/check").read() if os.path.exists(T + "/check") else ""
        caught = res.get("check") == "1" and "VIOLATION property=" + meta["property"] in c
        det = "CAUGHT" if caught else "MISSED (check exit %s)" % res.get("check")
        det += " " + " | ".join(l[:200] for l in c.splitlines() if "VIOLATION" in l)[:300]
    d1 = open(T + "/demo1").read().strip().replace("\n", " ")[:160] if os.path.exists(T + "/demo1") else ""
    d0 = open(T + "/demo0").read().strip().replace("\n", " ")[:160] if res.get("demo0") != "0" else ""
    bad = "" if ok else " %r" % out[-400:]
    shutil.rmtree(T + "/repo", ignore_errors=True)
    shutil.rmtree(T + "/verif", ignore_errors=True)
    shutil.rmtree(T + "/build-checks", ignore_errors=True)
    return "%-28s %s %s demo %s/%s [%s%s] %s%s" % (i, "VALID" if ok else "INVALID", tm, res.get("demo0"), res.get("demo1"), d0, d1, det, bad)


if __name__ == "__main__":
    a = sys.argv[1:]
    j = 1
    if "-j" in a:
        k = a.index("-j"); j = int(a[k + 1]); del a[k:k + 2]
    check = "--no-check" not in a
    tests = "--demo-only" not in a
    ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(SEED))
    with concurrent.futures.ThreadPoolExecutor(j) as ex:
        for l in ex.map(lambda i: run(i, tests, check), ids):
            print(l, flush=True)
