import sys, json, random, time, os, signal
import prover
inp, outp, total, qb, seed = sys.argv[1], sys.argv[2], float(sys.argv[3]), float(sys.argv[4]), int(sys.argv[5])
d = json.load(open(inp)); partial = []; t0 = time.time()
def dump(r):
    json.dump(r, open(outp + ".tmp", "w")); os.replace(outp + ".tmp", outp)
class Timeout(BaseException): pass
def on_alarm(*a): raise Timeout()
signal.signal(signal.SIGALRM, on_alarm); signal.setitimer(signal.ITIMER_REAL, total + 20)
# should native code overrun the alarm, what is known so far is on disk
def progress(res):
    global partial
    partial = res
try: r = prover.run(d, budget_q=qb, total=total, seed=seed, progress=progress)
except Timeout:
    rest = d["queries"][len(partial):]
    r = dict(results=partial + [dict(msg=q["msg"], kind=q["kind"], loc=q.get("loc", ""), verdict="unknown", why="time") for q in rest], stats=dict(prover.STATS), wall=time.time() - t0)
signal.setitimer(signal.ITIMER_REAL, 0)
# a few concrete points satisfying explored path conditions (replayed natively to validate the encoding)
nodes = {n[0]: (n[1], n[2], n[3], n[4]) for n in d["nodes"]}
w = []
signal.setitimer(signal.ITIMER_REAL, 15)
try:
    pcs = []
    for q in d["queries"]:
        if q["kind"] == "assert" and q["pc"] not in pcs: pcs.append(q["pc"])
    rng = random.Random(seed); t0 = time.time()
    if pcs:
        false = max(nodes) + 1; nodes[false] = ("const", 1, [], "0")
        for pc in [pcs[-1]] + rng.sample(pcs, min(3, len(pcs))):
            if time.time() - t0 > 6 or len(w) >= 2: break
            # goal "false" makes every point of the path a candidate
            w += prover.find_candidates(nodes, list(pc), false, prover.symlist(nodes), [], 1.5, rng, want=1)
except (Exception, Timeout) as e: r["witness_error"] = str(e)
signal.setitimer(signal.ITIMER_REAL, 0)
r["witnesses"] = w
dump(r)
