"""C02: a call's result depends on its arguments only, whatever was called before."""
import copy
import random

from .. import ops
from ..lab import V, budget, fatal_v, fill, gen_fault, prune, same, same_text, shrink_scenario

RULE = "a case is a history of 3-26 calls, in-place edits, failing or interrupted calls and object re-creations in one process, each call compared bit for bit with the same call alone in a fresh process; non-trivial when a call follows one that differs from it in one parameter or in edited data; distinct by the history"
LANES = {"quick": {"interp": (1400, 60), "compiled": (8, 60)}, "thorough": {"interp": (40000, 1100), "compiled": (400, 600)}}
ASSUME = ["lane interp: kernels interpreted, uninitialised memory filled with a chosen value; lane compiled: numba compiles as shipped"]


def make(rng, i, tier, lane):
    if lane == "compiled":
        return make_compiled(rng)
    w = ops.World(rng)
    kind = rng.choice(["near", "near", "evict", "edit", "edit", "mixed", "fresh"])
    prog = []
    if kind == "evict":
        n = rng.randrange(12, 26)
        base = ops.gen_op(w, [rng.choice(["eos", "eos", "bottle", "mixed", "interp", "potential", "ntp", "veronis"])])
        prog = [base]
        for _ in range(n):
            prog.append(ops.near_miss(w, rng.choice(prog)) if rng.random() < 0.8 else ops.gen_op(w, ["eos"]))
        prog += [copy.deepcopy(o) for o in rng.sample(prog, 4)]
    else:
        fams = rng.choice([None, None, ["omega"], ["omega", "potential", "anomaly"], ["potential"], ["mixed", "traj", "bottle", "veronis"], ["grid"], ["interp", "eos"], ["stabilize", "unstable"]])
        n = rng.randrange(3, 8)
        for _ in range(n):
            x = rng.random()
            if prog and x < 0.3:
                prog.append(copy.deepcopy(rng.choice(prog)))
            elif prog and x < 0.75:
                prog.append(ops.near_miss(w, rng.choice(prog)))
            else:
                prog.append(ops.gen_op(w, fams, bad=0.08))
        prog.append(copy.deepcopy(rng.choice(prog)))
    if kind == "fresh":
        for o in prog:
            o["fresh"] = True
    for o in prog:
        if rng.random() < 0.25:
            o["poison"] = True
    if kind in ("edit", "mixed"):
        q = []
        for o in prog:
            q.append(o)
            for n in sorted(ops.used(o)):
                if rng.random() < 0.5:
                    e = an_edit(rng, w, n)
                    if e:
                        q.append(e)
                        if rng.random() < 0.6:
                            q.append(copy.deepcopy(o))
        prog = q
    if rng.random() < 0.2:
        prog.insert(rng.randrange(len(prog)), fill(rng, rng.choice([4, 9, 12, 30])))
    if rng.random() < 0.2:
        prog.insert(rng.randrange(len(prog)), {"fam": "gc", "fn": "@gc"})
    sc = {"objs": w.objs, "clients": [prog], "poison": rng.randrange(8), "prange": rng.randrange(1 << 20), "ambient": {"npseed": rng.randrange(1000), "burn": rng.randrange(1, 5)}}
    c = {"sc": prune(sc), "pseed": rng.randrange(1 << 30), "nf": rng.choice([0, 0, 1, 2])}
    return c


def make_compiled(rng):
    w = ops.World(rng, shape=[2, 2, 5], layouts=("nd", "xr"))
    fam = rng.choice([["bottle"], ["eos"], ["traj"], ["interp"], ["potential"], ["veronis"], ["ntp"], ["mixed"]])
    base = ops.gen_op(w, fam)
    prog = [base]
    for _ in range(rng.randrange(2, 5)):
        prog.append(ops.near_miss(w, rng.choice(prog)))
    prog.append(copy.deepcopy(base))
    return {"sc": prune({"objs": w.objs, "clients": [prog]}), "pseed": rng.randrange(1 << 30), "nf": 0}


def an_edit(rng, w, n):
    d = w.objs[n]
    if d["k"] == "ocean":
        if d.get("layout") in ("ro", "dask") or d.get("dtype"):
            return None
        if d["layout"] == "xr" and not d.get("Pxr", True):
            return None
        e = rng.choice([{"what": "S", "f": 0.03}, {"what": "T", "f": 1.02}, {"what": "P", "f": 1.001}, {"what": "land", "i": rng.randrange(1, 20)}, {"what": "swapcasts", "ij": [rng.randrange(20), rng.randrange(20)]}])
    elif d["k"] == "grid":
        e = rng.choice([{"what": "dist", "f": 1.5}, {"what": "edges", "n": rng.randrange(50)}])
    elif d["k"] == "surf":
        if d.get("dtype") or d.get("layout") in ("ro", "dask"):
            return None
        e = {"what": "p", "f": rng.choice([5.0, -20.0])}
    elif d["k"] in ("rand", "randsort", "graph", "edges"):
        if d.get("layout"):
            return None
        e = {"what": "scale", "f": rng.choice([0.9, 1.25])}
    else:
        return None
    return {"fam": "edit", "fn": "@edit", "obj": n, "edit": e}


def descs_along(sc):
    """Object descriptors as each op of the (single) client sees them."""
    cur = {k: copy.deepcopy(v) for k, v in sc["objs"].items()}
    out = []
    for op in sc["clients"][0]:
        if op["fn"] == "@edit":
            d = cur[op["obj"]] = copy.deepcopy(cur[op["obj"]])
            d["edits"] = d.get("edits", []) + [op["edit"]]
            out.append(None)
        elif op["fn"] == "@gc":
            out.append(None)
        else:
            out.append(dict(sc["objs"] if op.get("fresh") else cur))
    return out


def judge(case, lab):
    sc = case["sc"]
    prog = sc["clients"][0]
    along = descs_along(sc)
    refs = [None if d is None else lab.ref(op, d) for op, d in zip(prog, along)]
    if "faults" not in sc:
        rng = random.Random(case["pseed"])
        idx = [i for i, r in enumerate(refs[:-1]) if r is not None and r["status"] == "ok"]
        sc["faults"] = [gen_fault(rng, refs[i], 0, i) for i in sorted(rng.sample(idx, min(case["nf"], len(idx))))]
    if "budget" not in sc:
        sc["budget"] = budget([r for r in refs if r])
    res = lab.run(sc, timeout=200.0)
    vs = fatal_v(res)
    for o, rec in enumerate(res["clients"][0] if res["clients"] else []):
        if refs[o] is None:
            if rec["status"] != "ok":
                raise RuntimeError("edit failed: %s %s" % (prog[o], rec))
            continue
        if rec["fired"]:
            continue
        d = same(rec, refs[o]) or same_text(res, 0, o, rec, refs[o])
        if d:
            vs.append(V("history", "call %d (%s) after %d earlier calls: %s" % (o, prog[o]["fn"], o, d)))
            break
    case["_nontrivial"] = repr([(o.get("fam"), sorted(o.get("kw", {}).items(), key=str)) for o in prog])[:2000]
    if any(r is not None and r["status"] == "ok" for r in refs):
        lab.st["probe:histories_with_%s" % ("edits" if any(o["fn"] == "@edit" for o in prog) else "no_edits")] += 1
    return vs


def shrink(case):
    for s in shrink_scenario(case["sc"]):
        yield dict(case, sc=s)
    if case["sc"].get("poison"):
        yield dict(case, sc=dict(case["sc"], poison=0))
    for i, o in enumerate(case["sc"]["clients"][0]):
        if o.get("poison"):
            s = copy.deepcopy(case["sc"])
            del s["clients"][0][i]["poison"]
            yield dict(case, sc=s)
