"""C10: lazy, chunked inputs give the in-memory result or an error."""
import copy
import random

from .. import ops
from ..lab import V, budget, fatal_v, pick_step, prune, same, shrink_scenario, surfaced

RULE = "a case is 1-2 threads making 1-3 calls on lazily loaded DataArrays (chunked dask arrays computed by a seeded scheduler, or lazily indexed storage arrays), with slow reads or a failing read in some calls followed by a retry; the oracle is the same call on in-memory DataArrays in a fresh process; non-trivial when chunks were read; distinct by (chunking, task order, fault site)"
LANES = {"quick": {"interp": (2600, 100)}, "thorough": {"interp": (40000, 1500)}}
ASSUME = ["a read that fails with AttributeError is not injected: hasattr() may legally absorb it", "in-place stabilisation is not a call with lazy inputs"]
FAMS = ["potential", "anomaly", "omega", "omega", "mixed", "traj", "unstable", "ntp"]


def lazify(w, d, rng, shape):
    d["layout"] = "dask"
    d.pop("dtype", None)
    d["chunks"] = [rng.choice([1, 2, n, max(1, n - 1)]) for n in shape]
    if rng.random() < 0.25:
        d["backend"] = 1


def gen(w, rng, fam):
    if fam == "traj":
        op = ops.f_traj(w)
        oc = op["args"][0]["$"]
        lazify(w, w.objs[oc], rng, w.objs[oc]["shape"])
        op["kw"]["vert_dim"] = "z"
    elif fam == "ntp":
        op = ops.f_ntp(w)
        for a, n in zip(op["args"][:3], "stp"):
            if rng.random() < 0.8:
                d = w.objs[a["$"]]
                lazify(w, d, rng, w.hs)
                d["name"] = n
    else:
        op = {"potential": lambda: ops.f_isopyc(w, "potential"), "anomaly": lambda: ops.f_isopyc(w, "anomaly"), "omega": lambda: ops.f_omega(w), "mixed": lambda: ops.f_mixed(w), "unstable": lambda: ops.f_unstable(w)}[fam]()
        d = w.objs[op["args"][0]["$"]]
        if rng.random() < 0.25:
            d["backend"] = 1
        if rng.random() < 0.3:
            d["lazy"] = rng.sample(["salt", "theta", "pres"], rng.choice([1, 2]))
        if fam == "omega" and isinstance(op["args"][5], dict) and rng.random() < 0.6:
            lazify(w, w.objs[op["args"][5]["$"]], rng, w.hs)
    return op


def make(rng, i, tier, lane):
    w = ops.World(rng, lazy=True)
    fam = rng.choice(FAMS)
    op = gen(w, rng, fam)
    prog = [op]
    if rng.random() < 0.8:
        prog.append(copy.deepcopy(op))
    if rng.random() < 0.4:
        prog.append(copy.deepcopy(op))
    clients = [prog]
    if rng.random() < 0.3:
        clients.append([copy.deepcopy(op) if rng.random() < 0.6 else gen(w, rng, rng.choice(FAMS))])
    sc = {"objs": w.objs, "clients": clients, "integrity": 1, "dask": {"seed": rng.choice([0, rng.randrange(1, 10**6)])}, "first": rng.randrange(len(clients))}
    return {"sc": prune(sc), "pseed": rng.randrange(1 << 30), "mode": rng.choice(["plain", "fail", "fail", "stall", "mixed"])}


def in_memory(objs):
    out = {}
    for n, d in objs.items():
        if d.get("layout") == "dask":
            d = {k: v for k, v in d.items() if k not in ("chunks", "backend", "lazy")}
            d["layout"] = "xr"
        out[n] = d
    return out


def judge(case, lab):
    sc = case["sc"]
    mem = in_memory(sc["objs"])
    refs = [[lab.ref(op, mem) for op in p] for p in sc["clients"]]
    lazy = [[lab.ref(op, sc["objs"], extra={"dask": {"seed": 0}}) for op in p] for p in sc["clients"]]
    if "faults" not in sc:
        rng = random.Random(case["pseed"])
        fs = []
        for c, p in enumerate(lazy):
            for o, r in enumerate(p):
                n = r["ecalls"].get("read", 0) if r["status"] == "ok" else 0
                if not n:
                    continue
                mode = case["mode"] if case["mode"] != "mixed" else rng.choice(["plain", "fail", "stall"])
                if mode == "fail" and (o < len(p) - 1 or len(p) == 1 and rng.random() < 0.5):
                    fs.append({"client": c, "op": o, "kind": "read", "at": rng.randrange(n), "what": rng.choice(["raise", "raise", "raise_after"]), "exc": rng.choice(["EIO", "TimeoutError", "KeyboardInterrupt", "RuntimeError", "ValueError", "MemoryError", "KeyError", "IndexError", "TypeError"])})
                elif mode == "stall":
                    for _ in range(rng.choice([1, 3])):
                        fs.append({"client": c, "op": o, "kind": "read", "at": rng.randrange(n), "what": "stall", "dt": rng.choice([0.5, 30.0, 7200.0])})
        sc["faults"] = fs
        pre = []
        if len(sc["clients"]) > 1:
            for _ in range(rng.choice([1, 2, 4])):
                c = rng.randrange(len(refs))
                o = rng.randrange(len(refs[c]))
                pre.append([c, o, "l", pick_step(rng, refs[c][o]), rng.randrange(3)])
        sc["preempt"] = pre
    sc["budget"] = budget([r for p in refs + lazy for r in p])
    res = lab.run(sc)
    vs = fatal_v(res)
    reads = 0
    for c, recs in enumerate(res["clients"]):
        for o, rec in enumerate(recs):
            name = "thread %d call %d (%s)" % (c, o, sc["clients"][c][o]["fn"])
            reads += rec["ecalls"].get("read", 0)
            hit = [f for f in rec["fired"] if f.get("what") != "stall"]
            if hit:
                d = surfaced(dict(rec, fired=hit))
                if d:
                    vs.append(V("partial-data", "%s: failing read: %s" % (name, d)))
            else:
                d = same(rec, refs[c][o])
                if d:
                    vs.append(V("lazy-differs", "%s with lazy inputs %s: %s (right: in memory)" % (name, [sc["objs"][n].get("chunks") for n in sorted(ops.used(sc["clients"][c][o])) if sc["objs"][n].get("layout") == "dask"], d)))
            if rec.get("mutated"):
                vs.append(V("not-lazy-any-more", "%s%s: %s" % (name, " (failed read)" if hit else "", rec["mutated"][:2])))
    lab.st["probe:chunk_reads"] += reads
    if reads:
        case["_nontrivial"] = repr((res["trace"], sc["dask"], sorted((n, repr(d.get("chunks"))) for n, d in sc["objs"].items())))
    return vs


def shrink(case):
    for s in shrink_scenario(case["sc"]):
        if "dask" in s:
            yield dict(case, sc=s)
