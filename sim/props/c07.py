"""C07: stabilising in place is crash-consistent cast by cast, and resumable."""
import copy
import random

import numpy as np

from .. import ops, world
from ..lab import V, budget, fatal_v, gen_fault, prune, shrink_scenario, surfaced, thaw

RULE = "a case is an unstable dataset stabilised in place with 1-3 crashes (interrupt at a line, failing minimiser, equation of state, output or allocation) each followed by a resume, or the same dataset under two layouts / random states / with other casts lost; the caller's arrays are examined after every call; non-trivial when a crash fired or two runs were compared; distinct by (dataset, options, fault sites)"
LANES = {"quick": {"interp": (2200, 100)}, "thorough": {"interp": (40000, 1500)}}
ASSUME = ["interrupts arrive between Python lines, not inside except/finally blocks", "a resumed run may re-perturb an already finished cast by no more than 1e-4"]
TOL = 1e-4


def make(rng, i, tier, lane):
    w = ops.World(rng, shape=[rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3]), 5])
    kind = rng.choice(["crash", "crash", "crash", "limit", "twice", "layout", "random", "alone"])
    oc = ops.stab_ocean(w)
    d = w.objs[oc]
    if rng.random() < 0.15 and d["layout"] in ("nd", "F"):
        d["dtype"] = "f4"
    op = ops.f_stabilize(w, oc, inplace=True)
    for k in ("options", "tol"):
        op["kw"].pop(k, None)
    if rng.random() < 0.2:
        op["kw"]["min_dLRPDdp"] = ops.R(w.add("md", {"k": "rand", "seed": rng.randrange(10**6), "lo": 1e-7, "hi": 1e-5, "shape": [d["shape"][-1] - 1]}))
    elif rng.random() < 0.3:
        m = marginal(rng, d, w.objs[op["args"][3]["$"]])
        if m is not None:
            op["kw"]["min_dLRPDdp"] = m
    if rng.random() < 0.15:
        op["kw"]["tol"] = rng.choice([1e-8, 1e-12])
    n = rng.choice([1, 1, 2, 3]) if kind == "crash" else 0
    prog = [copy.deepcopy(op) for _ in range(n + 1)]
    if kind == "twice":
        prog.append(copy.deepcopy(op))
    if kind == "limit":  # the minimiser gives up by itself, at its iteration limit; then a resume without it
        for _ in range(rng.choice([1, 1, 2])):
            q = copy.deepcopy(op)
            q["kw"]["options"] = {"maxiter": rng.choice([1, 2, 3, 4, 5, 6, 8, 12])}
            prog.insert(0, q)
    sc = {"objs": w.objs, "clients": [prog], "snap": [oc]}
    case = {"kind": kind, "oc": oc, "pseed": rng.randrange(1 << 30)}
    if kind == "random":
        sc["ambient"] = {"npseed": rng.randrange(1000), "burn": 3}
        sc["poison"] = rng.randrange(1, 8)
    if kind == "layout":
        d2 = copy.deepcopy(d)
        d.pop("dtype", None), d2.pop("dtype", None)
        d2["layout"] = rng.choice([x for x in ("nd", "F", "strided", "xr") if x != d["layout"]])
        d2["vert"] = rng.choice([0, 1, 2]) if d2["layout"] != "strided" else 2
        d2["p1d"] = rng.random() < 0.5 and d2["layout"] != "strided"
        case["other"] = d2
    case["sc"] = prune(sc)
    return case


def casts(fz, d):
    """(S, T) of a frozen ocean, vertical axis last, and P."""
    S, T, P = thaw(fz)
    v = d.get("vert", len(d["shape"]) - 1)
    S, T = (np.moveaxis(np.asarray(x), v, -1) for x in (S, T))
    return S, T, np.asarray(P)


def marginal(rng, d, eosd):
    """A requested stability which some cast just meets, or just misses."""
    S, T, P = casts(world.freeze(world.build_ocean(d)), d)
    eos = world.build_obj(eosd, None)
    P = P if P.ndim == 1 else np.moveaxis(P, d.get("vert", S.ndim - 1), -1)
    gs = []
    for c in np.ndindex(S.shape[:-1]):
        ok = np.isfinite(S[c])
        if ok.sum() > 1:
            g = gradients(S[c][ok], T[c][ok], (P if P.ndim == 1 else P[c])[ok], eos).min()
            if 1e-6 < g < 1e-3:
                gs.append(g)
    if not gs:
        return None
    return float(rng.choice(gs) * (1 - rng.choice([1e-5, 1e-4, 1e-3, 0.01, 0.03, 0.1, 0.3, -1e-4])))


def eq(a, b):
    return a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)


def gradients(S, T, P, eos):
    pm = (P[:-1] + P[1:]) / 2
    f = eos.py_func if hasattr(eos, "py_func") else eos
    with np.errstate(all="ignore"):
        a = np.array([float(f(float(S[k]), float(T[k]), float(pm[k]))) for k in range(len(pm))])
        b = np.array([float(f(float(S[k + 1]), float(T[k + 1]), float(pm[k]))) for k in range(len(pm))])
        return (b - a) / (P[1:] - P[:-1])


def demand(op, objs):
    m = op["kw"].get("min_dLRPDdp", 1e-6)
    if isinstance(m, dict):
        return world.build_obj(objs[m["$"]], None)
    return m


def judge(case, lab):
    sc, kind, oc = case["sc"], case["kind"], case["oc"]
    prog = sc["clients"][0]
    op = prog[-1]
    d = sc["objs"][oc]
    ref = lab.ref(op, sc["objs"])
    vs = []
    if ref["status"] == "fatal":
        return fatal_v(ref)
    if ref["status"] != "ok":
        return []
    S0, T0, P0 = casts(world.freeze(world.build_ocean(d)), d)
    S1, T1, P1 = casts(ref["dump"][oc], d)
    hs = list(np.ndindex(S0.shape[:-1]))
    fn = "stabilising"
    changed = [c for c in hs if not (eq(S0[c], S1[c]) and eq(T0[c], T1[c]))]
    # the complete run itself: untouched where stable, touched where not
    eos = world.build_obj(sc["objs"][op["args"][3]["$"]], None)
    m = demand(op, sc["objs"])
    Pn = P0 if P0.ndim == 1 else np.moveaxis(P0, d.get("vert", S0.ndim - 1), -1)
    for c in hs:
        ok = np.isfinite(S0[c])
        if ok.sum() < 2 or d.get("dtype"):
            if ok.sum() < 2 and c in changed:
                vs.append(V("stable-cast-changed", "%s: cast %s has %d bottle(s) and was changed" % (fn, c, ok.sum())))
            continue
        P = (Pn if Pn.ndim == 1 else Pn[c])[ok]
        mm = m if np.isscalar(m) else m[ok[:-1] & ok[1:]]
        g = gradients(S0[c][ok], T0[c][ok], P, eos) - mm
        g1 = gradients(S1[c][ok], T1[c][ok], P, eos) - mm
        if (g > 1e-12).all() and c in changed:
            vs.append(V("stable-cast-changed", "%s: cast %s met the requested stability (margin %.3g) and was changed" % (fn, c, g.min())))
        if (g < -1e-12).any():
            lab.st["probe:unstable_casts"] += 1
            if c not in changed:
                vs.append(V("not-stabilised", "%s: cast %s is unstable and was left in the caller's arrays as it was" % (fn, c)))
            elif (g1 < -1e-8).any():
                vs.append(V("not-stabilised", "%s: cast %s is still %.3g short of the requested stability" % (fn, c, -g1.min())))
    if not eq(P0, P1):
        vs.append(V("pressure-changed", "%s changed P" % fn))
    if vs:
        return vs

    rng = random.Random(case["pseed"])
    if "faults" not in sc:
        sc["faults"] = []
        if kind == "crash":
            for o in range(len(prog) - 1):
                sc["faults"].append(gen_fault(rng, ref, 0, o))
    sc["budget"] = budget([ref] * len(prog))
    res = lab.run(sc)
    vs += fatal_v(res)
    if vs:
        return vs
    finished = set()  # casts found finished after an earlier round
    prevS, prevT = S0, T0
    for o, rec in enumerate(res["clients"][0]):
        S, T, P = casts(rec["snap"][oc], d)
        where = "call %d%s" % (o, " stopped by %s" % [(f["kind"], f.get("exc") or f.get("what"), f["at"]) for f in rec["fired"]] if rec["fired"] else "")
        if rec["fired"]:
            s = surfaced(rec)
            if s:
                vs.append(V("swallowed", "%s, %s: %s" % (fn, where, s)))
        elif kind == "limit" and rec["status"] != "ok" and "options" in prog[o]["kw"]:
            lab.st["probe:minimiser_gave_up"] += 1
        elif rec["status"] != "ok":
            vs.append(V("resume-failed", "%s, %s raised %s: %s" % (fn, where, rec["exc"], rec["msg"][:100])))
        if not eq(P0, P):
            vs.append(V("pressure-changed", "%s, %s: P changed" % (fn, where)))
        done = {}
        for c in hs:
            if c not in changed:
                if not (eq(S[c], S0[c]) and eq(T[c], T0[c])):
                    vs.append(V("stable-cast-changed", "%s, %s: cast %s was stable and changed" % (fn, where, c)))
                continue
            if eq(S[c], S1[c]) and eq(T[c], T1[c]):
                done[c] = True
            elif eq(S[c], S0[c]) and eq(T[c], T0[c]) and c not in finished:
                done[c] = False
            elif c in finished and np.allclose(S[c], S1[c], rtol=0, atol=TOL, equal_nan=True) and np.allclose(T[c], T1[c], rtol=0, atol=TOL, equal_nan=True):
                done[c] = True
            else:
                vs.append(V("torn-cast", "%s, %s: cast %s is neither as given nor as finished: S off by %s, T off by %s" % (fn, where, c, np.nanmax(abs(S[c] - S1[c])), np.nanmax(abs(T[c] - T1[c])))))
                done[c] = False
        order = [done[c] for c in changed]
        if any(b and not a for a, b in zip(order, order[1:])):
            vs.append(V("order", "%s, %s: a later cast is finished before an earlier one: %s" % (fn, where, order)))
        if not rec["fired"] and rec["status"] == "ok" and not all(order):
            vs.append(V("incomplete", "%s, %s returned but cast(s) %s are not finished" % (fn, where, [c for c in changed if not done[c]])))
        finished |= {c for c in changed if done[c]}
        if vs:
            return vs
        if rec["fired"]:
            lab.st["probe:crash_with_some_casts_finished" if any(order) and not all(order) else "probe:crash_otherwise"] += 1
    fired = [r for r in res["clients"][0] if r["fired"]]
    if kind == "layout":
        o2 = copy.deepcopy(op)
        d2 = case["other"]
        o2["kw"]["vert_dim"] = "z" if d2["layout"] == "xr" else d2.get("vert", 2)
        r2 = lab.ref(o2, dict(sc["objs"], **{oc: d2}))
        if r2["status"] != "ok":
            vs.append(V("layout", "%s in layout %s raised %s: %s" % (fn, d2["layout"], r2.get("exc"), r2.get("msg", "")[:100])))
        else:
            A, B, _ = casts(r2["dump"][oc], d2)
            for c in hs:
                if not (eq(A[c], S1[c]) and eq(B[c], T1[c])):
                    vs.append(V("layout", "%s: cast %s comes out differently in layout %s/vertical axis %s than in %s/%s" % (fn, c, d2["layout"], d2.get("vert", 2), d["layout"], d.get("vert", 2))))
                    break
    if kind == "alone" and len(hs) > 1:
        keep = rng.randrange(len(hs))
        d2 = copy.deepcopy(d)
        d2["land"] = sorted(set(d.get("land", [])) | {j for j in range(len(hs)) if j != keep})
        r2 = lab.ref(op, dict(sc["objs"], **{oc: d2}))
        if r2["status"] != "ok":
            vs.append(V("other-casts", "%s raised %s when other casts are land" % (fn, r2.get("exc"))))
        else:
            A, B, _ = casts(r2["dump"][oc], d2)
            c = hs[keep]
            if not (eq(A[c], S1[c]) and eq(B[c], T1[c])):
                vs.append(V("other-casts", "%s: cast %s comes out differently when all other casts are land" % (fn, c)))
    if fired or kind != "crash":
        case["_nontrivial"] = repr((kind, d, sorted(op["kw"].items(), key=str), res["trace"]))
    return vs


def shrink(case):
    for s in shrink_scenario(case["sc"]):
        if s["clients"][0]:
            yield dict(case, sc=s)
    d = case["sc"]["objs"][case["oc"]]
    for k in ("land", "bottoms", "tops", "p1d", "dtype"):
        if d.get(k):
            c = copy.deepcopy(case)
            del c["sc"]["objs"][case["oc"]][k]
            yield c
    if len(d.get("unstable", [])) > 1:
        for j in range(len(d["unstable"])):
            c = copy.deepcopy(case)
            del c["sc"]["objs"][case["oc"]]["unstable"][j]
            yield c
