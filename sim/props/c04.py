"""C04: a failed or interrupted call surfaces its failure and leaves no trace."""
import copy
import random

from .. import ops
from ..lab import V, budget, fatal_v, fill, gen_fault, pick_step, prune, same, same_text, shrink_scenario, surfaced, warmed

RULE = "a case is 1-3 threads; one or two calls get one fault each (interrupt between lines, failing kernel, solver, minimiser, read or output), then the same call is retried and related calls follow, in half of the cases other threads run in between; non-trivial when a fault fired; distinct by (calls, fault sites, switches)"
LANES = {"quick": {"interp": (3000, 100)}, "thorough": {"interp": (50000, 1500)}}
ASSUME = ["interrupts arrive between Python lines, never inside with/try headers, except or finally blocks or context managers (no Python code can be safe there)", "an AttributeError raised by lazy data is not injected: hasattr() may legally absorb it"]


def make(rng, i, tier, lane):
    w = ops.World(rng, lazy=rng.random() < 0.15)
    fams = rng.choice([None, None, ["omega"], ["omega"], ["potential", "anomaly"], ["mixed", "traj", "bottle", "veronis"], ["stabilize"], ["eos", "interp"], ["grid", "ntp"]])
    op = ops.gen_op(w, fams)
    nc = rng.choice([1, 1, 2, 2, 3])
    prog = [op, copy.deepcopy(op)]
    if rng.random() < 0.3:
        prog.insert(0, ops.near_miss(w, op))
    if rng.random() < 0.4:
        prog.append(ops.near_miss(w, op))
    clients = [prog]
    for _ in range(nc - 1):
        q = [copy.deepcopy(op) if rng.random() < 0.4 else ops.near_miss(w, op)]
        if rng.random() < 0.4:
            q.append(ops.gen_op(w, fams))
        clients.append(q)
    prelude = []
    if rng.random() < 0.25:  # the failure meets a process with a history
        prelude = [rng.choice(p) for p in clients if rng.random() < 0.6]
        if rng.random() < 0.6:
            prelude.insert(rng.choice([0, len(prelude)]), fill(rng, rng.randrange(1, 14)))
    return {"sc": prune({"prelude": prelude, "objs": w.objs, "clients": clients, "first": rng.randrange(nc), "end_order": [rng.randrange(3) for _ in range(3)]}), "pseed": rng.randrange(1 << 30), "nf": rng.choice([1, 1, 1, 2])}


def judge(case, lab):
    sc = case["sc"]
    refs = [[lab.ref(op, sc["objs"]) for op in p] for p in sc["clients"]]
    if "faults" not in sc:
        rng = random.Random(case["pseed"])
        rs = warmed(lab, sc, refs) if sc.get("prelude") else refs
        cand = [(c, o) for c, p in enumerate(refs) for o, r in enumerate(p) if r["status"] == "ok"]
        fs = []
        if cand:
            first = next(((c, o) for c, o in cand if c == 0 and o < len(refs[0]) - 1), cand[0])
            for c, o in ([first] + rng.sample(cand, min(len(cand), case["nf"] - 1))):
                if not any(f["client"] == c and f["op"] == o for f in fs):
                    fs.append(gen_fault(rng, rs[c][o], c, o))
        sc["faults"] = fs
        pre = []
        if len(sc["clients"]) > 1:
            for _ in range(rng.choice([0, 1, 2, 4])):
                c = rng.randrange(len(refs))
                o = rng.randrange(len(refs[c]))
                pre.append([c, o, "l", pick_step(rng, rs[c][o]), rng.randrange(3)])
        sc["preempt"] = pre
    sc["budget"] = budget([r for p in refs for r in p])
    res = lab.run(sc)
    vs = fatal_v(res)
    fired = 0
    for c, recs in enumerate(res["clients"]):
        for o, rec in enumerate(recs):
            name = "thread %d call %d (%s)" % (c, o, sc["clients"][c][o]["fn"])
            if rec["fired"]:
                fired += 1
                d = surfaced(rec)
                if d:
                    vs.append(V("swallowed", "%s: %s" % (name, d)))
            else:
                d = same(rec, refs[c][o]) or same_text(res, c, o, rec, refs[c][o])
                if d:
                    vs.append(V("trace-left", "%s, after a fault %s: %s" % (name, [(f["kind"], f.get("exc") or f.get("what")) for f in sc["faults"]], d)))
    if fired:
        case["_nontrivial"] = res["trace"]
    return vs


def shrink(case):
    for s in shrink_scenario(case["sc"]):
        yield dict(case, sc=s)
