"""C03: the caller's data is never changed, and results are private to the caller."""
import copy
import random

from .. import ops
from ..lab import V, budget, fatal_v, gen_fault, prune, same, shrink_scenario

RULE = "a case is 1-2 threads with 1-4 calls, a simulated second thread reading every argument object at each source line executed, in half of the cases a fault inside a call, and overwriting of returned arrays; non-trivial when a call took array arguments and was observed in progress; distinct by (calls, fault)"
LANES = {"quick": {"interp": (3200, 100)}, "thorough": {"interp": (40000, 1500)}}
ASSUME = ["observation happens between Python lines (a compiled kernel is atomic for other Python threads)", "coordinates of DataArrays may be shared, as xarray does by convention"]


def make(rng, i, tier, lane):
    w = ops.World(rng, lazy=rng.random() < 0.12)
    fams = rng.choice([None, None, ["omega"], ["potential", "anomaly"], ["grid"], ["misc", "interp"], ["mixed", "traj", "bottle", "veronis", "ntp"], ["stabilize", "unstable"]])
    op = ops.gen_op(w, fams, bad=0.1)
    prog = [op]
    if rng.random() < 0.6:
        op = prog[0] = dict(op, poison=True)
        prog.append(copy.deepcopy({k: v for k, v in op.items() if k != "poison"}))
    if rng.random() < 0.3:
        prog.append(ops.near_miss(w, op))
    sc = {"objs": w.objs, "clients": [prog], "integrity": 1, "final_check": 1, "observe": rng.choice([1, 1, 2]), "poison": rng.randrange(8)}
    return {"sc": prune(sc), "pseed": rng.randrange(1 << 30), "nf": int(rng.random() < 0.5)}


def judge(case, lab):
    sc = case["sc"]
    prog = sc["clients"][0]
    refs = [lab.ref(op, sc["objs"]) for op in prog]
    if "faults" not in sc:
        rng = random.Random(case["pseed"])
        sc["faults"] = [gen_fault(rng, refs[0], 0, 0)] if case["nf"] and refs[0]["status"] == "ok" else []
    sc["budget"] = budget(refs)
    res = lab.run(sc)
    vs = fatal_v(res)
    for o, rec in enumerate(res["clients"][0] if res["clients"] else []):
        f = " interrupted by %s" % rec["fired"] if rec["fired"] else ""
        for k, cls in (("mutated", "argument-changed"), ("alias", "shared-memory")):
            if rec.get(k):
                vs.append(V(cls, "call %d (%s)%s: %s" % (o, prog[o]["fn"], f, rec[k][0])))
        if not rec["fired"]:
            d = same(rec, refs[o])
            if d:
                vs.append(V("result", "call %d (%s) after overwriting earlier results: %s" % (o, prog[o]["fn"], d)))
    if res.get("obs"):
        vs.append(V("changed-temporarily", "seen by another thread: %s" % res["obs"][0]))
    elif res.get("final_mut") and not vs:
        vs.append(V("argument-changed", "after overwriting the results: %s" % res["final_mut"][0]))
    if res.get("nobs"):
        case["_nontrivial"] = repr((prog[0].get("fam"), sorted(prog[0].get("kw", {}).items(), key=str), res["trace"]))
    return vs


def shrink(case):
    for s in shrink_scenario(case["sc"]):
        yield dict(case, sc=s)
