#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property on /repo's current tree."""
import sys, os, json, subprocess, time, shutil, threading, fcntl, re
from concurrent.futures import ThreadPoolExecutor, as_completed
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "tools"))
import specs
PY = "/opt/veriftools/pyvenv/bin/python"
if not os.path.exists(PY): PY = shutil.which("python3-vt") or sys.executable
PKGS = ["sm_common", "sm_random", "sm_boost", "sm_eigen", "sm_kinematics", "sm_logging", "sm_matrix_archive", "sm_property_tree", "sm_timing", "sm_value_store"]
INC = ["-I%s/%s/include" % (REPO, p) for p in PKGS] + ["-I/usr/include/eigen3", "-I%s/rt" % V]
DEFS = ["-DBOOST_BIND_GLOBAL_PLACEHOLDERS"]
T0 = time.time()

def ensure_engine():
    b = os.path.join(V, "build", "engine"); exe = os.path.join(b, "symex")
    os.makedirs(b, exist_ok=True)
    with open(os.path.join(b, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["make", "-s", "-j4", "-C", os.path.join(V, "engine"), "BUILD=" + b], capture_output=True, text=True)
        if r.returncode: print(r.stdout + r.stderr); raise SystemExit("engine build failed")
    return exe

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)

class Check:
    def __init__(s, pid, tier):
        s.pid = pid; s.tier = tier; s.spec = specs.SPECS[pid]
        s.work = os.path.join(V, "build", "work", "%s-%d" % (pid, os.getpid()))
        os.makedirs(s.work, exist_ok=True)
        s.budget = s.spec.get("budget", {}).get(tier, 400 if tier == "quick" else 3000)
        s.log = []; s.viol = []; s.inconclusive = []; s.known = []
        s.stats = dict(entries=0, paths=0, instrs=0, forks=0, asserts=0, trivially_true=0, discharged=0, unknown=0, solver_s=0.0, smt_queries=0, witness_replays=0, witness_ok=0, replays=0)
        s.functions = set(); s.samples = []; s.native_bin = {}
        s.nlock = threading.Lock()

    def out(s, *a):
        m = " ".join(str(x) for x in a); s.log.append(m); print(m, flush=True)

    # ---- builds
    def srcs(s): return [os.path.join(REPO, x) if not x.startswith("@") else os.path.join(V, x[1:]) for x in s.spec.get("src", [])]
    def inc(s): return (["-I%s/%s" % (V, d) for d in s.spec.get("shim", [])]) + INC
    def compile_bc(s):
        jobs = []
        hs = [os.path.join(V, "harness", h) for h in s.spec["harness"]]
        models = [os.path.join(V, "rt", m) for m in s.spec.get("models", ["models.cpp"])]
        flags = ["-std=c++14", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-vectorize", "-fno-slp-vectorize", "-DEIGEN_DONT_VECTORIZE",
                 "-ffp-contract=off", "-gline-tables-only", "-w", "-emit-llvm", "-c", "-DSX_SYMBOLIC"] + DEFS + s.spec.get("defs", [])
        for i, f in enumerate(hs + s.srcs() + models):
            o = os.path.join(s.work, "u%d.bc" % i); jobs.append((f, o))
        def one(j):
            f, o = j; ex = []
            if f.startswith(REPO): ex = s.spec.get("srcflags", {}).get(os.path.relpath(f, REPO), [])
            if "pre" in s.spec: ex = ex + ["-include", os.path.join(V, s.spec["pre"])]
            if f.startswith(REPO + "/sm_property_tree"): ex = ex + ["-include", "boost/bind.hpp"]
            return sh(["clang++-18"] + flags + ex + s.inc() + [f, "-o", o])
        with ThreadPoolExecutor(8) as ex:
            for (f, o), r in zip(jobs, ex.map(one, jobs)):
                if r.returncode: s.out("COMPILE-ERROR", f, r.stderr[:3000]); raise SystemExit(2)
        bc = os.path.join(s.work, "all.bc"); ob = os.path.join(s.work, "opt.bc")
        r = sh(["llvm-link-18"] + [o for _, o in jobs] + ["-o", bc])
        if r.returncode: s.out("LINK-ERROR", r.stderr[:3000]); raise SystemExit(2)
        passes = s.spec.get("passes", "elim-avail-extern,default<O1>")
        ni = s.spec.get("noinline", [])
        r = sh(["opt-18", "-passes=" + ("forceattrs," if ni else "") + passes] + ["-force-attribute=%s:noinline" % f for f in ni] + s.spec.get("optflags", []) + [bc, "-o", ob])
        if r.returncode: s.out("OPT-ERROR", r.stderr[:3000]); raise SystemExit(2)
        s.bc = ob

    def native(s, asan=False):
        """native replay binary from the real sources"""
        with s.nlock:
            if asan in s.native_bin: return s.native_bin[asan]
            cxx = ["g++", "-std=c++14", "-O0", "-w", "-ftrivial-auto-var-init=pattern"] + (["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] if asan else []) + DEFS + s.spec.get("defs", []) + s.inc()
            fs = [os.path.join(V, "harness", h) for h in s.spec["harness"]] + s.srcs() + [os.path.join(V, "rt", "native.cpp")] + [os.path.join(V, "rt", x) for x in s.spec.get("native", [])]
            tag = "a" if asan else "n"; objs = []
            def one(j):
                i, f = j; o = os.path.join(s.work, "%s%d.o" % (tag, i)); ex = []
                if f.startswith(REPO + "/sm_property_tree"): ex = ["-include", "boost/bind.hpp"]
                if f.startswith(REPO): ex = ex + s.spec.get("srcflags", {}).get(os.path.relpath(f, REPO), [])
                return o, sh(cxx + ex + ["-c", f, "-o", o])
            with ThreadPoolExecutor(4) as ex:
                for o, r in ex.map(one, list(enumerate(fs))):
                    if r.returncode: s.out("NATIVE-COMPILE", r.stderr[:2000]); s.native_bin[asan] = None; return None
                    objs.append(o)
            exe = os.path.join(s.work, "native_" + tag)
            r = sh(["g++", "-rdynamic"] + (["-fsanitize=address,undefined"] if asan else []) + objs + s.spec.get("ldflags", []) + ["-lboost_thread", "-lboost_system", "-lboost_filesystem", "-lboost_serialization", "-lboost_chrono", "-lpthread", "-ldl", "-o", exe])
            if r.returncode: s.out("NATIVE-LINK", r.stderr[:2000]); exe = None
            s.native_bin[asan] = exe
            return exe

    def replay(s, e, values, asan=False, keep=None, exact=False):
        """run one assignment natively -> (reproduced?, text)"""
        exe = s.native(asan)
        if not exe: return None, "no native build"
        f = keep or os.path.join(s.work, "vals-%d-%d.txt" % (threading.get_ident(), int(time.time() * 1e6)))
        with open(f, "w") as h:
            for k, v in values.items(): h.write("%s\t%s\n" % (k, v))
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0", MALLOC_PERTURB_="1") # what nobody wrote holds junk
        if exact: env["SX_EXACT"] = "1"
        d = os.path.join(s.work, "cwd-%d" % threading.get_ident()); os.makedirs(d, exist_ok=True)
        try: r = sh([exe, e["name"], f] + [str(x) for x in e.get("params", [])], timeout=20, env=env, cwd=d)
        except subprocess.TimeoutExpired: return "hang", "timeout"
        if not keep:
            try: os.unlink(f)
            except OSError: pass
        t = (r.stdout + r.stderr)[-1500:]
        if r.returncode == 0: return "pass", t
        if r.returncode == 3: return "assume", t
        return "fail", "exit %d: %s" % (r.returncode, t)

    # ---- one entry
    stop = False
    def run_entry(s, e):
        if s.stop: return dict(entry=e, error="not run")
        real = e.get("mode", s.spec.get("mode", "bv")) == "real"
        mt = e.get("time", 150 if s.tier == "quick" else 900)
        mt = max(10, min(mt, s.budget - (time.time() - T0)))
        o = os.path.join(s.work, "%s_%s.json" % (e["name"], "_".join(str(x) for x in e.get("params", []))))
        cmd = [s.exe, s.bc, "--entry", e["name"], "--out", o, "--max-time", str(int(mt)), "--witness", str(e.get("witness", 2))]
        if real: cmd.append("--real")
        for p in e.get("params", []): cmd += ["--param", str(p)]
        cmd += e.get("opts", s.spec.get("opts", []))
        t = time.time()
        try: r = sh(cmd, timeout=mt + 60)
        except subprocess.TimeoutExpired: return dict(entry=e, error="executor timeout")
        if r.returncode or not os.path.exists(o): return dict(entry=e, error="executor failed: rc=%s %s" % (r.returncode, r.stderr[-600:]))
        d = json.load(open(o)); res = dict(entry=e, d=d, real=real, wall=time.time() - t)
        if real:
            po = o + ".p"; left = max(10, min(e.get("ptime", mt), s.budget - (time.time() - T0)))
            try: r = sh([PY, os.path.join(V, "tools", "prove_main.py"), o, po, str(left), str(e.get("qtime", 25)), os.environ.get("VERIF_SEED", "1")], timeout=left + 60)
            except subprocess.TimeoutExpired: res["error"] = "prover timeout"; return res
            if r.returncode or not os.path.exists(po): res["error"] = "prover failed: " + r.stderr[-600:]; return res
            res["p"] = json.load(open(po))
        res["wall"] = time.time() - t
        return res

    def label(s, e): return e["name"] + ("(" + ",".join(str(x) for x in e["params"]) + ")" if e.get("params") else "")

    def judge(s, res):
        e = res["entry"]; lb = s.label(e); st = s.stats; st["entries"] += 1
        if "error" in res: s.inconclusive.append("%s: %s" % (lb, res["error"])); return
        d = res["d"]; x = d["stats"]
        for k, k2 in (("paths", "paths"), ("instrs", "instrs"), ("forks", "forks"), ("asserts", "asserts"), ("assert_simplified", "trivially_true"), ("queries", "smt_queries")): st[k2] += x[k]
        st["solver_s"] += x["solver_s"]; s.functions |= set(d["functions"])
        if d["incomplete"]: s.inconclusive.append("%s: exploration incomplete: %s" % (lb, d["incomplete_why"][:200]))
        for p in d["problems"]: s.inconclusive.append("%s: unsupported: %s" % (lb, p[:200]))
        for k, n in d["unknown_asserts"].items(): s.inconclusive.append("%s: solver gave no answer for '%s' (%d)" % (lb, k, n)); st["unknown"] += n
        for w in e.get("reach", s.spec.get("reach", [])):
            if not d["reach"].get(w): s.inconclusive.append("%s: vacuity: '%s' never reached" % (lb, w))
        cands = []
        if res["real"]:
            p = res["p"]; st["smt_queries"] += p["stats"]["z3_queries"]; st["solver_s"] += p["stats"]["z3_s"]
            for r in p["results"]:
                if r["verdict"] == "proved": st["discharged"] += 1
                else:
                    st["unknown"] += 1
                    cands.append((r["msg"], r["kind"], [dict((k, "d%r" % v) if isinstance(v, float) else (k, str(v)) for k, v in c.items()) for c in r.get("candidates", [])], r.get("why", "")))
            wit = [dict((k, "d%r" % v) for k, v in w.items()) for w in p.get("witnesses", [])]
        else:
            st["discharged"] += x["assert_unsat"]
            for v in d["violations"]: cands.append((v["msg"], v["kind"], [v["values"]], v["trace"][:300]))
            wit = d.get("witnesses", [])
        # witnesses: concrete runs of explored paths must behave natively as predicted
        failed_w = []
        if wit and not e.get("nowitness") and not e.get("known"):
            if len(s.samples) < 6: s.samples.append(dict(entry=lb, witness={k: wit[0][k] for k in list(wit[0])[:24]}))
            for w in wit[:3]:
                v, t = s.replay(e, w, exact=False)
                if v is None: break
                if v == "assume": continue
                st["witness_replays"] += 1
                if v == "pass": st["witness_ok"] += 1
                else: failed_w.append((w, t))
        groups = {}
        for c in cands: groups.setdefault((c[0], c[1]), []).append(c)
        for (msg, kind), cs in groups.items():
            done = False; tried = 0; notes = []
            for c in cs:
                for vals in c[2]:
                    if tried >= 12: break
                    tried += 1; st["replays"] += 1
                    v, t = s.replay(e, vals, asan=(kind in ("memory", "abort", "uninit")) or bool(e.get("asan")))
                    if kind == "hang" and v != "hang": notes.append(v); continue
                    if v in ("fail", "hang"):
                        s.report(e, msg, kind, vals, t); done = True; break
                    notes.append(v)
                if done or tried >= 12: break
            if not done and not e.get("known"):
                s.inconclusive.append("%s: '%s' (%s) not discharged (%d queries, %d candidates replayed: %s) %s" % (lb, msg, kind, len(cs), tried, ",".join(str(n) for n in notes[:4]), cs[0][3]))
        for w, t in failed_w:
            s.inconclusive.append("%s: witness run behaves differently natively: %s" % (lb, t[-200:].replace("\n", " ")))

    def report(s, e, msg, kind, vals, text):
        if e.get("known") and e["known"] in s.kf:
            k = e["known"]
            if k not in [x[0] for x in s.known]: s.known.append((k, s.kf[k]["what"]))
            return
        if len(s.viol) >= 8: return
        rd = os.path.join(V, "evidence", "replays"); os.makedirs(rd, exist_ok=True)
        f = os.path.join(rd, "%s-%d.txt" % (s.pid, len(s.viol)))
        with open(f, "w") as h:
            h.write("# property %s entry %s params %s\n# %s: %s\n# native replay: %s\n# rerun: %s/tools/check.py %s --replay %s %s\n" % (s.pid, e["name"], e.get("params", []), kind, msg, text.replace("\n", " | ")[-500:], V, s.pid, e["name"], f))
            for k, v in vals.items(): h.write("%s\t%s\n" % (k, v))
        s.viol.append(dict(entry=s.label(e), msg=msg, kind=kind, replay=f, values=vals))
        s.out("counterexample %s: %s [%s] %s" % (s.label(e), msg, kind, text.strip().replace("\n", " | ")[-300:]))
        s.out("VIOLATION property=%s replay=%s" % (s.pid, f))

    def main(s):
        s.kf = {}
        kfp = os.path.join(V, "known_findings.json")
        if os.path.exists(kfp):
            for k in json.load(open(kfp)).get("findings", []):
                if k["property"] == s.pid and k.get("status") == "open": s.kf[k["id"]] = k
        s.exe = ensure_engine()
        nt = threading.Thread(target=s.native); 
        s.compile_bc()
        nt.start()
        entries = [e for e in s.spec["entries"] if s.tier in e.get("tiers", ("quick", "thorough"))]
        entries.sort(key=lambda e: -e.get("weight", 1))
        with ThreadPoolExecutor(s.spec.get("par", 8)) as ex:
            for f in as_completed([ex.submit(s.run_entry, e) for e in entries]):
                r = f.result(); nt.join(); s.judge(r)
                if "d" in r: s.out("  %-40s paths=%d asserts=%d %.1fs" % (s.label(r["entry"]), r["d"]["stats"]["paths"], r["d"]["stats"]["asserts"], r["wall"]))
                if s.viol and not os.environ.get("SX_ALL"): # the first violation is enough
                    s.stop = True; subprocess.run(["pkill", "-KILL", "-P", str(os.getpid())]); break
        for k, w in s.known: s.out("KNOWN-FINDING: property=%s %s" % (s.pid, w))
        for i in s.inconclusive: s.out("INCONCLUSIVE " + i)
        st = s.stats
        ev = dict(property=s.pid, tier=s.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
            coverage=dict(states=st["paths"] + st["forks"], transitions=st["instrs"], traces_validated_against_impl=st["witness_ok"] + st["replays"],
                samples=s.samples or [dict(note="no concrete witness extracted")], entries=[s.label(e) for e in entries], functions_encoded=sorted(s.functions),
                bounds=s.spec.get("bounds", ""), symbolic_paths=st["paths"], assertions=st["asserts"], assertions_trivially_true=st["trivially_true"], queries_discharged=st["discharged"],
                queries_unknown=st["unknown"], smt_queries=st["smt_queries"], solver_s=round(st["solver_s"], 3), witness_replays=st["witness_replays"], witness_replays_agreeing=st["witness_ok"],
                inconclusive=s.inconclusive[:40], known_findings=[k for k, _ in s.known],
                explanation="Bounded symbolic execution of the real code (clang LLVM IR of /repo, regenerated on this run); every assertion decided by Z3 for all values within the bounds."),
            assumptions=s.spec.get("assumptions", []), wall_s=round(time.time() - T0, 1), violations=len(s.viol))
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", s.pid + ".json"), "w"), indent=1)
        s.out("%s %s: %d entries, %d paths, %d assertions, %d SMT queries, %.1f s solver, %d inconclusive, %d violations, %.0f s" % (s.pid, s.tier, st["entries"], st["paths"], st["asserts"], st["smt_queries"], st["solver_s"], len(s.inconclusive), len(s.viol), time.time() - T0))
        return 1 if s.viol else 0

def main():
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    c = Check(pid, tier)
    try:
        if "--replay" in sys.argv:
            i = sys.argv.index("--replay"); vals = dict(l.rstrip("\n").split("\t", 1) for l in open(sys.argv[i + 2]) if "\t" in l)
            e = next(x for x in c.spec["entries"] if x["name"] == sys.argv[i + 1])
            print(c.replay(e, vals, asan="--asan" in sys.argv)); return 0
        if "--only" in sys.argv:
            pat = sys.argv[sys.argv.index("--only") + 1]; c.spec = dict(c.spec, entries=[e for e in c.spec["entries"] if re.search(pat, c.label(e))])
        return c.main()
    finally:
        if "--keep" not in sys.argv: shutil.rmtree(c.work, ignore_errors=True)
        else: print("work:", c.work)
if __name__ == "__main__": sys.exit(main())
