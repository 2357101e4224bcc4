"""C01: concurrent calls are isolated from one another."""
from .. import ops
from ..lab import V, budget, fatal_v, fill, pick_step, prune, same, shrink_scenario, text_of, warmed

RULE = "a case is 2-4 simulated threads with 1-3 calls each on shared objects, and a seeded list of preemption points; non-trivial when at least one planned preemption switched threads inside a call; counted distinct by (calls, switches taken)"
LANES = {"quick": {"interp": (2800, 100)}, "thorough": {"interp": (60000, 1500)}}
ASSUME = ["threads switch only between Python lines, between bytecodes (a third of the runs) or at writes; a numba kernel without nogil is atomic, as it holds the GIL", "numpy and scipy calls are atomic: they share no state of this library"]


def race(rng):
    """Short calls in a warm process, while another thread fills or turns over the memo caches."""
    w = ops.World(rng)
    prog = [ops.gen_op(w, [rng.choice(["eos", "eos", "bottle", "mixed", "traj", "potential", "low"])])]
    for _ in range(rng.choice([0, 1, 2])):
        prog.append(ops.near_miss(w, rng.choice(prog)))
    prelude = list(prog)
    if rng.random() < 0.3:
        prelude.insert(0, fill(rng, rng.randrange(1, 9)))
    clients = [prog, [fill(rng, rng.choice([6, 12, 30]))]]
    if rng.random() < 0.3:
        clients.append([rng.choice(prog), fill(rng, 12)])
    gran = rng.choice(["instr", "line", "line"])
    return {"warm": 1, "sc": prune({"prelude": prelude, "objs": w.objs, "clients": clients, "gran": gran, "first": 0, "end_order": [rng.randrange(4) for _ in range(4)]}), "style": rng.choice(["few", "early"]), "pseed": rng.randrange(1 << 30)}


def make(rng, i, tier, lane):
    if rng.random() < 0.15:
        return race(rng)
    w = ops.World(rng)
    mode = rng.random()
    nc = rng.choice([2, 2, 2, 3, 4])
    fams = None
    x = rng.random()
    if x < 0.5:
        fams = rng.sample(list(ops.FAMS), rng.choice([1, 1, 2, 3]))
    base = ops.gen_op(w, fams)
    pool = [base]
    clients = []
    for c in range(nc):
        prog = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            y = rng.random()
            if y < 0.3:
                op = rng.choice(pool)
            elif y < 0.75:
                op = ops.near_miss(w, rng.choice(pool))
            else:
                op = ops.gen_op(w, fams, bad=0.1)
            pool.append(op)
            prog.append(op)
        clients.append(prog)
    gran = "instr" if rng.random() < 0.3 else "line"
    style = rng.choice(["few", "few", "few", "dense", "early"])
    prelude = []
    if rng.random() < 0.4:  # a process with a history: memo caches warm, or nearly full
        x = rng.random()
        if x < 0.7:
            prelude = [rng.choice(p) for p in clients if rng.random() < 0.7]
        if x > 0.4:
            prelude.insert(rng.choice([0, len(prelude)]), fill(rng, rng.randrange(1, 14)))
        if rng.random() < 0.6:
            p = clients[rng.randrange(nc)]
            p.insert(rng.randrange(len(p) + 1), fill(rng, rng.choice([3, 12, 25])))
    return {"warm": int(bool(prelude) or rng.random() < 0.2), "sc": prune({"prelude": prelude, "objs": w.objs, "clients": clients, "gran": gran, "first": rng.randrange(nc), "end_order": [rng.randrange(4) for _ in range(4)]}), "style": style, "pseed": rng.randrange(1 << 30)}


def plan(case, refs, rng):
    sc = case["sc"]
    out = []
    instr = sc.get("gran") == "instr"

    def pt(c, o):
        r = refs[c][o]
        if r["writes"] and rng.random() < 0.15:
            return [c, o, "w", rng.randrange(1, r["writes"] + 1), rng.randrange(4)]
        if instr and rng.random() < 0.7:
            n = max(10, r["lsteps"] * 9)
            return [c, o, "i", rng.randrange(1, n) if rng.random() < 0.5 else 1 + int(n ** rng.random()), rng.randrange(4)]
        return [c, o, "l", pick_step(rng, r), rng.randrange(4)]

    allops = [(c, o) for c, p in enumerate(sc["clients"]) for o in range(len(p))]
    if not allops:
        return out
    if case["style"] == "few":
        for _ in range(rng.choice([1, 2, 3, 5])):
            out.append(pt(*rng.choice(allops)))
    elif case["style"] == "early":
        for c, o in allops:
            for _ in range(2):
                out.append([c, o, "l", 1 + int(min(80, refs[c][o]["lsteps"]) * rng.random()), rng.randrange(4)])
    else:
        for c, o in allops:
            n = refs[c][o]["lsteps"]
            gap = rng.choice([1, 2, 5, 15])
            k = 0
            while k < n and len(out) < 400:
                k += 1 + int(rng.expovariate(1.0 / gap))
                out.append([c, o, "l", k, rng.randrange(4)])
    return out


def judge(case, lab):
    import random

    sc = case["sc"]
    refs = [[lab.ref(op, sc["objs"]) for op in p] for p in sc["clients"]]
    if "preempt" not in sc:
        rs = refs
        if case.get("warm"):  # where the lines are depends on the history: record it first
            rs = warmed(lab, sc, refs)
        sc["preempt"] = plan(case, rs, random.Random(case["pseed"]))
    sc["budget"] = budget([r for p in refs for r in p])
    res = lab.run(sc)
    vs = fatal_v(res)
    for c, recs in enumerate(res["clients"]):
        for o, rec in enumerate(recs):
            d = same(rec, refs[c][o])
            if d:
                vs.append(V("result", "thread %d call %d (%s): %s" % (c, o, sc["clients"][c][o]["fn"], d)))
            elif rec["status"] == "ok" and not res.get("fatal"):
                t = text_of(res, c, o)
                if t != refs[c][o]["text"]:
                    vs.append(V("text", "thread %d call %d (%s) printed %r, alone %r" % (c, o, sc["clients"][c][o]["fn"], t[:150], refs[c][o]["text"][:150])))
    if res.get("stray") and not res.get("fatal"):
        vs.append(V("text", "text written elsewhere than sys.stdout: %r" % (res["stray"][:2],)))
    if res["switches"] >= len([c for c in sc["clients"] if c]):
        case["_nontrivial"] = res["trace"]
        lab.st["probe:switched_inside_a_call"] += 1
    return vs


def shrink(case):
    for s in shrink_scenario(case["sc"]):
        yield dict(case, sc=s)
