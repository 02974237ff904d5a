"""Maintains /verif/seeded from tools/seeds_src.py. Never used by a check.
seedtool.py make ID...   create the planted change in the scratch copy, confirm it (build, tests, demo) and store it
seedtool.py run ID...    run the property's check against the scratch copy with the change applied
The scratch copy (/tmp/sr with /tmp/svp build scripts) is made by hand; see DESIGN.md."""
import os, sys, subprocess, json, shutil, stat
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); SR = "/tmp/sr"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO = r'''#!/bin/bash
# exit 0 iff the property's behaviour is right; run with cwd = the repository
set -u
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d); trap 'rm -r "$d"' EXIT
inc=""; for p in */include; do inc="$inc -I$PWD/$p"; done
n=0; for f in "$here/demo.cpp" %s; do n=$((n+1)); g++ -std=c++14 -O0 -w %s $inc -I/usr/include/eigen3 -c "$f" -o "$d/$n.o" & done; wait
g++ "$d"/*.o -o "$d/demo" %s || exit 99
cd "$d" && timeout 100 ./demo
'''
def load():
    import seeds_src; return seeds_src.SEEDS
def reset(): sh("git -C %s checkout -q -- . && git -C %s clean -fdq -e _build" % (SR, SR))
def apply(s):
    for f, old, new in s["edits"]:
        p = os.path.join(SR, f); t = open(p).read()
        assert t.count(old) == 1, "%s: %d occurrences of %r" % (s["id"], t.count(old), old)
        open(p, "w").write(t.replace(old, new))
def make(s):
    sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (SR, SR)); reset()
    d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    open(d + "/demo.cpp", "w").write(s["demo"])
    srcs = " ".join('"$PWD/%s"' % x for x in s["srcs"])
    open(d + "/demo.sh", "w").write(DEMO % (srcs, s.get("flags", ""), s.get("libs", "-lboost_thread -lboost_system -lboost_filesystem -lboost_serialization -lboost_chrono -lpthread"))); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    a = sh("bash %s/demo.sh" % d, cwd=SR)
    if a.returncode: return "demo fails on the unchanged tree: rc %d %s" % (a.returncode, (a.stdout + a.stderr)[-800:])
    apply(s); open(d + "/patch.diff", "w").write(sh("git -C %s diff" % SR).stdout)
    b = sh("bash %s/demo.sh" % d, cwd=SR)
    if b.returncode == 0 or b.returncode == 99: reset(); return "demo rc %d with the change %s" % (b.returncode, (b.stdout + b.stderr)[-500:])
    t = sh("bash /tmp/svp/test.sh /tmp/so.json"); o = json.load(open("/tmp/so.json")); st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    miss = st - set(o["passed"]); reset()
    if miss: return "tests fail: %s %s" % (sorted(miss)[:5], t.stderr[-300:] if not o["passed"] else "")
    return "ok (demo: %s)" % (b.stdout + b.stderr).strip()[-150:].replace("\n", " | ")
def run(s):
    reset(); sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (SR, SR)); apply(s)
    t = sh("SX_REPO=%s python3-vt %s/tools/check.py %s" % (SR, V, s["prop"])); reset()
    l = [x for x in t.stdout.split("\n") if x.startswith(("VIOLATION", "counterexample", "INCONC", s["prop"]))]
    return "rc=%d %s" % (t.returncode, " || ".join(x[:230] for x in (l[:2] + l[-1:] if t.returncode else l[:6])))
if __name__ == "__main__":
    S = load(); ids = sys.argv[2:] or [s["id"] for s in S]
    for s in S:
        if not any(s["id"] == i or s["prop"] == i for i in ids): continue
        if sys.argv[1] == "make" and "--missing" in sys.argv and os.path.exists(os.path.join(V, "seeded", s["id"], "patch.diff")): continue
        print(s["id"], {"make": make, "run": run}[sys.argv[1]](s), flush=True)
