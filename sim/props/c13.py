"""C13: a call made while another is suspended (signal handler, stream, reader, forked process) is a normal call."""
import copy
import random

from .. import ops
from ..lab import V, budget, fatal_v, fill, gen_fault, pick_step, prune, same, shrink_scenario, surfaced, text_of, warmed

RULE = "a case is a thread with 1-3 calls; inside one of them, at 1-8 seeded lines, bytecodes, writes of progress text or lazy reads, the same thread makes another call (the same, nearly the same, or one on the same data), or the process forks and the child makes it; in a quarter of the cases the fork is made by another thread; non-trivial when a call was made inside a call; distinct by (calls, places, kinds)"
LANES = {"quick": {"interp": (3000, 120)}, "thorough": {"interp": (50000, 1500)}}
ASSUME = ["nested calls are made between Python lines or bytecodes of the library, as signal handlers are; compiled kernels are not entered", "a nested call runs to its end before the outer one goes on", "numpy, scipy and the interpreter survive a fork by themselves"]


def make(rng, i, tier, lane):
    w = ops.World(rng, lazy=rng.random() < 0.15)
    fams = None
    if rng.random() < 0.6:
        fams = rng.sample(list(ops.FAMS), rng.choice([1, 1, 2]))
    outer = ops.gen_op(w, fams, bad=0.05)
    if "output" in outer["kw"] and rng.random() < 0.5:
        outer["kw"]["output"] = True
    pool = [outer]
    for _ in range(3):
        x = rng.random()
        pool.append(ops.near_miss(w, rng.choice(pool)) if x < 0.6 else ops.gen_op(w, fams, bad=0.1))
    prog = [outer]
    while rng.random() < 0.4 and len(prog) < 3:
        prog.append(rng.choice(pool))
    inner = []
    for _ in range(rng.choice([1, 2, 3, 4, 6, 8])):
        op = fill(rng, rng.choice([3, 12, 25])) if rng.random() < 0.12 else copy.deepcopy(rng.choice(pool))
        if rng.random() < 0.25:
            op = {"fn": "@fork", "op": op}
        inner.append(op)
    prelude = []
    if rng.random() < 0.4:
        prelude = [rng.choice(pool) for _ in range(rng.choice([1, 2]))]
        if rng.random() < 0.4:
            prelude.insert(0, fill(rng, rng.randrange(1, 14)))
    clients = [prog]
    if rng.random() < 0.25:
        x = copy.deepcopy(rng.choice(pool))
        clients.append([{"fn": "@fork", "op": x, "args": [], "kw": {}}])
    sc = {"objs": w.objs, "clients": clients, "prelude": prelude, "gran": "instr" if rng.random() < 0.3 else "line", "first": 0}
    case = {"sc": sc, "inner": inner, "pseed": rng.randrange(1 << 30), "nf": int(rng.random() < 0.15)}
    keep = {n: sc["objs"][n] for op in inner for n in ops.used(op)}
    prune(sc)
    sc["objs"].update(keep)
    return case


def plan(case, refs, rng):
    sc = case["sc"]
    fs = []
    prog = sc["clients"][0]
    for n, op in enumerate(case["inner"]):
        o = 0 if rng.random() < 0.75 else rng.randrange(len(prog))
        r = refs[0][o]
        f = {"client": 0, "op": o, "n": n, "do": op}
        x = rng.random()
        if r["writes"] and x < 0.25:
            f.update(kind="stdout", what="nested", at=rng.randrange(r["writes"]))
        elif r["ecalls"].get("read") and x < 0.5:
            f.update(kind="read", what="nested", at=rng.randrange(r["ecalls"]["read"]))
        elif sc.get("gran") == "instr" and x < 0.75:
            m = max(10, r["lsteps"] * 9)
            f.update(kind="inested", at=rng.randrange(1, m) if rng.random() < 0.5 else 1 + int(m ** rng.random()))
        else:
            f.update(kind="nested", at=pick_step(rng, r))
        fs.append(f)
    if case["nf"] and refs[0][0]["status"] == "ok":
        fs.append(gen_fault(rng, refs[0][0], 0, 0))
    pre = []
    if len(sc["clients"]) > 1:
        for _ in range(rng.choice([1, 1, 2])):
            o = 0 if rng.random() < 0.75 else rng.randrange(len(prog))
            pre.append([0, o, "l", pick_step(rng, refs[0][o]), 0])
    return fs, pre


def judge(case, lab):
    sc = case["sc"]
    refs = [[lab.ref(op, sc["objs"]) for op in p] for p in sc["clients"]]
    if "faults" not in sc:
        rs = warmed(lab, sc, refs) if sc["prelude"] else refs
        sc["faults"], sc["preempt"] = plan(case, rs, random.Random(case["pseed"]))
        del case["inner"]
    nrefs = {f["n"]: lab.ref(f["do"], sc["objs"]) for f in sc["faults"] if "do" in f}
    sc["budget"] = budget([r for p in refs for r in p] + list(nrefs.values()))
    res = lab.run(sc)
    vs = fatal_v(res)

    def one(rec, ref, name, text):
        if rec["status"] == "fatal":
            return [V(rec["fatal"][0], "%s: %s" % (name, rec["fatal"][1]))]
        d = same(rec, ref)
        if d:
            return [V("result", "%s: %s" % (name, d))]
        if rec["status"] == "ok" and ref["status"] == "ok" and text != ref["text"]:
            return [V("text", "%s printed %r, alone %r" % (name, text[:150], ref["text"][:150]))]
        return []

    byn = {f["n"]: f for f in sc["faults"] if "do" in f}
    for cid, o, n, tag, rec in res.get("nested", []):
        f = byn[n]
        how = "fork and call" if f["do"]["fn"] == "@fork" else "call"
        text = rec.get("forktext")
        if text is None:
            text = text_of(res, cid, tag)
        vs += one(rec, nrefs[n], "%s (%s) made inside call %d (%s) at %s %d" % (how, f["do"].get("op", f["do"])["fn"], o, sc["clients"][0][o]["fn"], f["kind"], f["at"]), text)
    for c, recs in enumerate(res["clients"]):
        for o, rec in enumerate(recs):
            op = sc["clients"][c][o]
            real = [f for f in rec["fired"] if "do" not in f]
            if rec["status"] != "fatal" and real:
                x = surfaced(dict(rec, fired=real))
                if x:
                    vs.append(V("swallowed", "call %d (%s): %s" % (o, op["fn"], x)))
                continue
            text = rec.get("forktext")
            if text is None:
                text = text_of(res, c, o)
            what = "process forked by another thread, its call (%s)" % op["op"]["fn"] if op["fn"] == "@fork" else "thread %d call %d (%s)%s" % (c, o, op["fn"], " with another call inside" if rec["fired"] else "")
            if not res.get("fatal"):
                vs += one(rec, refs[c][o], what, text)
    if res.get("nested") or res["switches"] > 1:
        case["_nontrivial"] = repr((sc["clients"][0][0]["fn"], [(f["kind"], f.get("do", {}).get("fn")) for f in sc["faults"]], res["trace"]))
        lab.st["probe:calls_made_inside_a_call"] += len(res.get("nested", []))
        lab.st["probe:forks"] += sum(1 for x in res.get("nested", []) if byn[x[2]]["do"]["fn"] == "@fork") + sum(1 for p in sc["clients"][1:] for _ in p)
    return vs


def shrink(case):
    for s in shrink_scenario(case["sc"]):
        if s["clients"] and s["clients"][0]:
            yield dict(case, sc=s)
