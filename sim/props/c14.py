"""C14: nothing accumulates in a long-lived process."""
import copy
import random

from .. import ops
from ..lab import V, fatal_v, fill, gen_fault

RULE = "a case is a session of 4-6 rounds; a round is 1-3 calls (some failing or interrupted in every round) on objects made for the call and dropped after it, numeric options varying from round to round and, by kind of session, shapes too, or 120 more functions asked of the factories, or the call repeated 30 times; after every call the collector runs, weak references to all arrays passed and returned must be dead, and the memory blocks allocated below library lines are counted; non-trivial when a call returned or failed with arrays passed; distinct by (calls, faults, sizes)"
LANES = {"quick": {"interp": (320, 90)}, "thorough": {"interp": (8000, 1500)}}
ASSUME = ["memory kept by numba's compiler is numba's own (the lane is interpreted)", "a cache of at most 600 specialised functions per factory counts as bounded"]
FILL0 = 600
MORE = 12  # rounds in the longer session that decides a suspicion of growth
KEEP = ("eos", "ueos", "zerofn", "binfn")  # functions live as long as the session


def vary(op, r, rng):
    """The same call in another round: other data, other numbers."""
    op = copy.deepcopy(op)
    for k, v in op.get("kw", {}).items():
        if isinstance(v, float) and k not in ("ref", "grav", "rho_c"):
            op["kw"][k] = v * (1 + 1e-3 * r)
    return op


SAME = ("eos", "eos_s_t", "grav", "rho_c", "interp", "ans_type", "kind", "out", "nans", "num_dep_vars")


def reshaped(seed, fams, rnd, shape):
    """Round's calls again, on data of another shape."""
    rng = random.Random(seed)
    w = ops.World(rng, shape=shape)
    w.ncasts = shape[2] - 3
    out = []
    for op in rnd:
        for _ in range(30):
            new = ops.gen_op(w, [op["fam"]] if op["fam"] in ops.FAMS else fams, bad=0.0)
            if new["fn"] == op["fn"]:
                break
        else:
            return None
        for k in SAME:
            new["kw"].pop(k, None)
            if k in op["kw"]:
                new["kw"][k] = op["kw"][k]
        out.append(new)
    return w, out


def make(rng, i, tier, lane):
    w = ops.World(rng, lazy=rng.random() < 0.1)
    fams = None
    if rng.random() < 0.5:
        fams = rng.sample(list(ops.FAMS), rng.choice([1, 2]))
    rnd = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        rnd.append(ops.gen_op(w, fams, bad=0.12))
    nr = rng.choice([4, 5, 6])
    mode = rng.choice(["plain", "big", "shapes", "shapes", "loop"])
    big = mode == "big"  # does this session also run through many configurations?
    nloop = 0
    if mode == "loop":
        rnd, nr = rnd[:1], 4
        if not rnd[0]["fn"].startswith("@") and not w.lazy:
            nloop = 30
    prog, objs, warm = [], {}, []
    for r in list(range(MORE)) + [90, 91]:
        ww, ops_r = w, rnd
        if mode == "shapes" and r:
            x = reshaped(rng.randrange(1 << 30), fams, rnd, [2 + r % 3, 1 + (r + 1) // 2, 5 + r] if r < 90 else [3, r - 89, 6])
            if x:
                ww, ops_r = x
        for op, op0 in zip(ops_r, rnd):
            op = vary(op, r, rng)
            # every round has its own objects; functions are the session's
            need = ops.used(op)
            for k in SAME:
                need -= ops.used({"args": [op["kw"].get(k)]}) if k in op["kw"] else set()
            names = {n: "%s_%d" % (n, r) for n in sorted(need | deps(ww.objs, need)) if ww.objs[n]["k"] not in KEEP}
            for n in ops.used(op) - set(names):
                objs[n] = w.objs[n] if n in w.objs else ww.objs[n]
            for n, m in names.items():
                d = rename(ww.objs[n], names)
                if "seed" in d:
                    d = dict(d, seed=d["seed"] + r)
                objs[m] = d
            op = dict(rename(op, names), fresh=1)
            if r >= 90:  # what is made once, at the first execution of a line, is made before the count
                warm.append(op)
                continue
            if nloop:
                op.update(fn="@loop", call=op["fn"], n=nloop)
            prog.append(op)
        if big and r < 90:
            prog.append(fill(rng, 120))
    per = len(rnd) + big
    return {"longer": prog[nr * per :], "sc": {"objs": objs, "clients": [prog[: nr * per]], "leak": 1, "prelude": warm + ([fill(rng, FILL0)] if big else [])}, "per": per, "rounds": nr, "big": int(big), "mode": mode, "pseed": rng.randrange(1 << 30), "nf": int(rng.random() < 0.5)}


def deps(objs, need):
    out, todo = set(), list(need)
    while todo:
        n = todo.pop()
        for m in ops.used({"args": [objs[n]]}):
            if m not in out:
                out.add(m)
                todo.append(m)
    return out


def rename(x, names):
    if isinstance(x, dict):
        return {k: names.get(v, v) if k == "$" else rename(v, names) for k, v in x.items()}
    if isinstance(x, list):
        return [rename(v, names) for v in x]
    return x


def judge(case, lab):
    sc = case["sc"]
    prog = sc["clients"][0]
    per = case["per"]
    if "faults" not in sc:
        rng = random.Random(case["pseed"])
        sc["faults"] = []
        if case["nf"]:
            r0 = lab.ref(prog[0], sc["objs"])
            if r0["status"] == "ok":
                f = gen_fault(rng, r0, 0, 0)
                sc["faults"] = [dict(f, op=k * per) for k in range(case["rounds"])]
    sc["budget"] = 40_000_000
    res = lab.run(sc)
    vs = fatal_v(res)
    if vs:
        return vs
    recs = res["clients"][0]
    for o, rec in enumerate(recs):
        if rec.get("held"):
            how = "returned" if rec["status"] == "ok" else "raised %s" % rec["exc"]
            vs.append(V("held", "after call %d (%s) %s and its caller dropped everything, the library still holds %s" % (o, prog[o]["fn"], how, ", ".join(rec["held"][:3]))))
            break
    # an array made during a round and kept is not a constant of the library's own if the next rounds bring others
    kept = [sorted({p for r in recs[k : k + per] for p in r.get("kept", ())}) for k in range(0, len(recs), per)]
    for p in sorted({p for k in kept for p in k}):
        n = [j for j, k in enumerate(kept) if p in k]
        if len(n) >= 3 and not vs:
            vs.append(V("kept", "the library keeps arrays made during the calls of rounds %s in %s (%s)" % (n, p, ", ".join(op.get("call", op["fn"]) for op in prog[:per]))))
    live = rounds(recs, per)
    w = growing(live, case["big"])
    if w:
        # first-time effects end; a leak goes on
        n = len(live) + len(case["longer"]) // per
        fs = sc["faults"] + [dict(sc["faults"][0], op=k * per) for k in range(len(live), n)] if sc["faults"] else []
        more = lab.run(dict(sc, clients=[prog + case["longer"]], faults=fs), 240)
        lab.st["probe:suspicions_decided_by_a_longer_session"] += 1
        vs = fatal_v(more)
        if vs:
            return vs
        x = rounds(more["clients"][0], per)[2:]
        w = growing(x, case["big"])
        if w:
            vs.append(V("growth", "%s allocated by the library and still in use grow with every round of calls: %s (%s)" % (w, [a[w != "memory blocks"] for a in x], ", ".join(op.get("call", op["fn"]) for op in prog[:per]))))
    case["_nontrivial"] = repr(([op["fn"] for op in prog[:per]], res["trace"], live))
    lab.st["probe:session_" + case["mode"]] += 1
    lab.st["probe:weak_references_checked"] += sum(r.get("nrefs", 0) for r in recs)
    lab.st["probe:rounds"] += case["rounds"]
    return vs


def rounds(recs, per):
    return [recs[k]["live"] for k in range(per - 1, len(recs), per)]


def growing(live, big):
    for j, what in ((0, "memory blocks"), (1, "bytes")):
        x = [a[j] for a in live]
        least = (25, 1600)[j] if big else 1  # while caches turn over, what they hold varies
        if len(x) > 3 and all(b - a >= least for a, b in zip(x, x[1:])):
            return what
    return None


def shrink(case):
    sc = case["sc"]
    per = case["per"]
    if sc["faults"]:
        yield dict(case, sc=dict(sc, faults=[]))
    for j in range(per):
        if per > 1:
            prog, longer = ([op for k, op in enumerate(p) if k % per != j] for p in (sc["clients"][0], case["longer"]))
            fs = [] if j == 0 else [dict(f, op=f["op"] // per * (per - 1)) for f in sc["faults"]]
            yield dict(case, per=per - 1, longer=longer, sc=copy.deepcopy(dict(sc, clients=[prog], faults=fs)))
