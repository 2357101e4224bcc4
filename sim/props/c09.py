"""C09: the process's ambient state is left as found and does not leak into results."""
import copy
import json
import os
import pickle
import random
import subprocess
import sys
import tempfile

from .. import ops, world
from ..lab import V, budget, fatal_v, gen_fault, pick_step, prune, same, shrink_scenario

RULE = "a case is 1-3 calls under a chosen ambient state (random states, floating-point warning settings, warning filters, print options, recursion limit, environment, locale), in half of the cases with a fault inside a call; the ambient state is compared before and after every call and every result with that under default settings; lane 'hash' runs a batch of calls in processes with another hash seed; non-trivial when the ambient state was not the default or a fault fired; distinct by (calls, ambient, fault)"
LANES = {"quick": {"interp": (2600, 100), "hash": (24, 60)}, "thorough": {"interp": (40000, 1200), "hash": (600, 300)}}
ASSUME = ["floating-point settings range over ignore/warn/print/log-free ones: under 'raise' numpy itself raises on the NaNs that mark land", "warning filters range over hidden/shown ones, not 'error'"]


def an_ambient(rng):
    a = {"npseed": rng.randrange(1000), "burn": rng.randrange(1, 9)}
    if rng.random() < 0.7:
        a["geterr"] = {k: rng.choice(["ignore", "warn", "print"]) for k in rng.sample(["divide", "over", "under", "invalid"], rng.randrange(1, 5))}
    if rng.random() < 0.5:
        a["warn"] = rng.choice(["always", "ignore", "once", "default", "module"])
    if rng.random() < 0.5:
        a["precision"] = rng.choice([2, 17])
    if rng.random() < 0.3:
        a["reclimit"] = rng.choice([700, 1500, 5000])
    if rng.random() < 0.4:
        a["env"] = {rng.choice(["LANG", "LC_ALL", "TZ", "COLUMNS", "DEBUG", "HOME", "TMPDIR", "NEUTRALOCEAN_DEBUG", "VERBOSE", "OMP_NUM_THREADS"]): rng.choice(["C", "1", "de_DE.UTF-8", "UTC+5", "/nonexistent"])}
    if rng.random() < 0.3:
        a["xropt"] = {rng.choice(["keep_attrs", "display_style"]): None}
        k = list(a["xropt"])[0]
        a["xropt"][k] = rng.choice([True, False]) if k == "keep_attrs" else "text"
    if rng.random() < 0.2:
        a["decprec"] = 7
    if rng.random() < 0.2:
        a["cwd"] = "/"
    return a


def make(rng, i, tier, lane):
    if lane == "hash":
        w = ops.World(rng)
        prog = [ops.gen_op(w, bad=0.1) for _ in range(14)]
        return {"sc": prune({"objs": w.objs, "clients": [prog]}), "hash": rng.randrange(1, 1 << 31)}
    w = ops.World(rng, lazy=rng.random() < 0.1)
    fams = rng.choice([None, None, None, ["omega"], ["potential", "anomaly"], ["interp", "eos", "misc"], ["stabilize", "unstable"], ["mixed", "traj", "bottle", "veronis", "ntp"], ["grid"]])
    prog = [ops.gen_op(w, fams, bad=0.1)]
    for _ in range(rng.choice([0, 1, 2])):
        prog.append(ops.near_miss(w, prog[0]) if rng.random() < 0.6 else ops.gen_op(w, fams))
    clients = [prog]
    if rng.random() < 0.3:
        clients.append([ops.near_miss(w, prog[0]) if rng.random() < 0.7 else ops.gen_op(w, fams)])
    sc = {"objs": w.objs, "clients": clients, "ambient_check": 1, "ambient": an_ambient(rng) if rng.random() < 0.85 else {}}
    return {"sc": prune(sc), "pseed": rng.randrange(1 << 30), "nf": int(rng.random() < 0.5)}


def judge(case, lab):
    if "hash" in case:
        return judge_hash(case, lab)
    sc = case["sc"]
    prog = sc["clients"][0]
    refs = [[lab.ref(op, sc["objs"]) for op in p] for p in sc["clients"]]
    if "faults" not in sc:
        rng = random.Random(case["pseed"])
        ok = [o for o, r in enumerate(refs[0]) if r["status"] == "ok"]
        sc["faults"] = [gen_fault(rng, refs[0][o], 0, o) for o in ok[:1]] if case["nf"] else []
        sc["preempt"] = []
        if len(refs) > 1:
            for _ in range(rng.choice([1, 2, 4])):
                c = rng.randrange(len(refs))
                o = rng.randrange(len(refs[c]))
                sc["preempt"].append([c, o, "l", pick_step(rng, refs[c][o]), rng.randrange(3)])
    sc["budget"] = budget([r for p in refs for r in p])
    res = lab.run(sc)
    vs = fatal_v(res)
    if res.get("ambient_end"):
        vs.append(V("ambient-changed", "after all threads ended: %s" % "; ".join(res["ambient_end"])))
    for c, o, rec in [(c, o, rec) for c, recs in enumerate(res["clients"]) for o, rec in enumerate(recs)]:
        prog = sc["clients"][c]
        how = rec["status"] + (" after %s" % [(f["kind"], f.get("exc") or f.get("what")) for f in rec["fired"]] if rec["fired"] else "")
        if rec.get("ambient"):
            vs.append(V("ambient-changed", "thread %d call %d (%s), exit %s: %s" % (c, o, prog[o]["fn"], how, "; ".join(rec["ambient"]))))
        if not rec["fired"]:
            d = same(rec, refs[c][o])
            if d:
                vs.append(V("ambient-leaks", "thread %d call %d (%s) under %s: %s" % (c, o, prog[o]["fn"], sc.get("ambient"), d)))
    if sc.get("ambient") or res["fired"]:
        case["_nontrivial"] = repr((prog[0]["fn"], sorted(prog[0].get("kw", {}).items(), key=str), sc.get("ambient"), res["trace"]))
    return vs


def judge_hash(case, lab):
    sc = case["sc"]
    prog = sc["clients"][0]
    fd, path = tempfile.mkstemp(prefix="nosim-hash-")
    with os.fdopen(fd, "w") as f:
        json.dump({"objs": sc["objs"], "ops": prog}, f)
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    try:
        env = dict(os.environ, PYTHONHASHSEED=str(case["hash"]))
        p = subprocess.run([sys.executable, os.path.join(here, "check.py"), "--refs", path], env=env, cwd=here, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if p.returncode:
            raise RuntimeError(p.stdout[-2000:])
        with open(path, "rb") as f:
            other = pickle.load(f)
    finally:
        os.unlink(path)
    lab.st["runs"] += len(prog)
    lab.st["ops"] += len(prog)
    lab.st["probe:hash_seeds"] += 1
    vs = []
    for o, op in enumerate(prog):
        r = lab.ref(op, sc["objs"])
        lab.st["steps"] += r.get("lsteps", 0)
        d = same(other[o], r)
        if d:
            vs.append(V("ambient-leaks", "call %d (%s) under hash seed %s: %s" % (o, op["fn"], case["hash"], d)))
            break
    case["_nontrivial"] = repr((case["hash"], [o["fn"] for o in prog], len(sc["objs"])))
    return vs


def refs_main(path):
    """In a process with another hash seed."""
    from .. import lab as labm, shim

    shim.install("interp")
    q = json.load(open(path))
    L = labm.Lab()
    out = [L.ref(op, q["objs"]) for op in q["ops"]]
    with open(path, "wb") as f:
        pickle.dump(out, f)


def shrink(case):
    for s in shrink_scenario(case["sc"]):
        yield dict(case, sc=s)
    for k in sorted(case["sc"].get("ambient", {})):
        s = copy.deepcopy(case["sc"])
        del s["ambient"][k]
        yield dict(case, sc=s)
