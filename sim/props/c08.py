"""C08: an omega-surface computation can be stopped and resumed without changing it."""
import copy
import random

import numpy as np

from .. import ops, world
from ..lab import V, budget, fatal_v, gen_fault, prune, same, shrink_scenario, surfaced, thaw

RULE = "a case is one omega surface computed in one go and again as 1-4 segments each started from the pressure the previous returned, in part with crashed segments that are repeated and with unrelated calls between; or with tolerances and iteration bounds, against the record of the longest run; non-trivial when there were two segments or a tolerance was in play; distinct by (call, segmentation, faults)"
LANES = {"quick": {"interp": (3000, 100)}, "thorough": {"interp": (50000, 1500)}}
ASSUME = ["segments are compared where the mixed layer is not removed (its removal skips the first iteration of every call by design) and wetting is alike in every iteration"]
PER_ITER = ("ϕ_MAV", "Δp_MAV", "Δp_RMS", "Δp_Linf", "n_newly_wet")
STATE = ("e_MAV", "e_RMS", "n_wet")


def make(rng, i, tier, lane):
    w = ops.World(rng, layouts=("nd", "nd", "F", "strided", "ro", "xr"), shape=[rng.choice([2, 3, 4, 5]), rng.choice([1, 2, 3]), rng.choice([5, 6, 8])] if rng.random() < 0.85 else None)
    kind = rng.choice(["segment", "segment", "segment", "tol", "tol"])
    op = ops.f_omega(w)
    kw = op["kw"]
    kw["diags"] = True
    kw["output"] = False
    for k in ("ITER_MIN", "ITER_MAX", "ITER_START_WETTING", "ITER_STOP_WETTING", "TOL_LRPD_MAV", "TOL_P_CHANGE_RMS"):
        kw.pop(k, None)
    n = rng.randrange(1, 6)
    case = {"kind": kind, "n": n, "pseed": rng.randrange(1 << 30)}
    if kind == "segment":
        kw.pop("p_ml", None)
        kw["TOL_LRPD_MAV"] = 0.0
        if rng.random() < 0.5:
            kw["ITER_START_WETTING"] = 10**6
        else:
            kw["ITER_START_WETTING"], kw["ITER_STOP_WETTING"] = rng.choice([0, 1]), 10**6
        if rng.random() < 0.3:
            kw["ITER_MIN"] = 0
        segs, left = [], n
        while left:
            k = rng.randrange(0 if rng.random() < 0.1 else 1, left + 1)
            segs.append(k)
            left -= k
        op["kw"]["ITER_MAX"] = n
        prog = []
        crash = rng.random() < 0.4
        for j, k in enumerate(segs):
            o = copy.deepcopy(op)
            o["kw"]["ITER_MAX"] = k
            if j:
                o["args"][5] = {"$": "res%d" % (j - 1), "i": 2}
            if crash and rng.random() < 0.6:
                prog.append(dict(copy.deepcopy(o), seg=-1))
            o["keep"] = "res%d" % j
            o["seg"] = j
            prog.append(o)
            if rng.random() < 0.2:
                prog.append(dict(ops.gen_op(w, ["omega", "potential", "mixed"]), seg=-2))
        case["segs"] = segs
    else:
        kw["ITER_MIN"] = rng.choice([0, 1, 1, 2, 3, 7])
        kw["ITER_MAX"] = n
        if rng.random() < 0.3:
            kw["ITER_START_WETTING"] = rng.choice([1, 2, 3])
        if rng.random() < 0.3:
            kw["ITER_STOP_WETTING"] = rng.choice([0, 1, 2])
        prog = [dict(op, seg=0)]
    case["sc"] = prune({"objs": w.objs, "clients": [prog]})
    case["op"] = op
    return case


def diag_of(rec):
    return thaw(rec["value"])[3]


def lengths(d, n, where):
    for k, v in d.items():
        if np.ndim(v) != 1 or len(v) != n + 1:
            return [V("records", "%s: %d iterations but %s has %s records" % (where, n, k, np.shape(v)))]
    return []


def pin_of(op, objs):
    pc = op["args"][4]
    ij = (pc,) if isinstance(pc, int) else tuple(pc["$t"]) if "$t" in pc else tuple(int(pc[n] // 10) for n in ops.LAT if n in pc)
    pi = op["args"][5]
    if isinstance(pi, dict):
        pi = np.asarray(getattr(world.build_obj(objs[pi["$"]], None), "values", world.build_obj(objs[pi["$"]], None)))[ij]
    return ij, pi


def check_final(lab, rec, op, objs, where):
    """Pinned exactly; the last record describes what is returned."""
    s, t, p, d = thaw(rec["value"])
    ij, pp = pin_of(op, objs)
    if p[ij] != pp:
        return [V("pin", "%s: pressure %r at the pinning cast, should be %r" % (where, p[ij], pp))]
    if d and d["n_wet"][-1] != np.isfinite(p).sum():
        return [V("records", "%s: last record says %d wet casts, the surface has %d" % (where, d["n_wet"][-1], np.isfinite(p).sum()))]
    return []


def judge(case, lab):
    return judge_seg(case, lab) if case["kind"] == "segment" else judge_tol(case, lab)


def judge_seg(case, lab):
    sc = case["sc"]
    prog = sc["clients"][0]
    op = case["op"]
    full = lab.ref(op, sc["objs"])
    if full["status"] == "fatal":
        return fatal_v(full)
    if full["status"] != "ok":
        return []
    vs = check_final(lab, full, op, sc["objs"], "uninterrupted run")
    D = diag_of(full)
    n = op["kw"]["ITER_MAX"]
    vs += lengths(D, n, "uninterrupted run with tolerances off")
    if vs:
        return vs
    if "faults" not in sc:
        rng = random.Random(case["pseed"])
        sc["faults"] = [gen_fault(rng, full, 0, o) for o, x in enumerate(prog) if x["seg"] == -1]
    sc["budget"] = budget([full] * (len(prog) + 1))
    res = lab.run(sc)
    vs = fatal_v(res)
    if vs:
        return vs
    at = 0
    last = None
    for o, rec in enumerate(res["clients"][0]):
        j = prog[o]["seg"]
        if rec["fired"] or j == -1 or j == -2:
            if rec["fired"]:
                m = surfaced(rec)
                if m:
                    vs.append(V("swallowed", "segment at iteration %d: %s" % (at, m)))
            continue
        k = prog[o]["kw"]["ITER_MAX"]
        where = "iterations %d to %d, resumed" % (at, at + k) if at else "iterations 0 to %d" % k
        if rec["status"] != "ok":
            vs.append(V("resume-failed", "%s raised %s: %s" % (where, rec["exc"], rec["msg"][:120])))
            break
        d = diag_of(rec)
        vs += lengths(d, k, where)
        if vs:
            break
        for key in STATE + PER_ITER:
            lo = 0 if key in STATE else 1
            a, b = np.asarray(d[key])[lo:], np.asarray(D[key])[at + lo : at + k + 1]
            if not np.array_equal(a, b, equal_nan=True):
                vs.append(V("resume-differs", "%s: %s is %s, uninterrupted %s" % (where, key, a.tolist(), b.tolist())))
                break
        if vs:
            break
        at += k
        last = rec
    if not vs and last is not None and at == n:
        for k, nm in enumerate("stp"):
            d = world.diff(last["value"][1][k], full["value"][1][k], nm)
            if d:
                vs.append(V("resume-differs", "after segments %s: %s" % (case["segs"], d)))
                break
        # the last record against a fresh evaluation of the returned surface
    if not vs and n:
        vs += consecutive(res, prog)
    if len([x for x in prog if x["seg"] >= 0]) > 1:
        case["_nontrivial"] = repr((sorted(op["kw"].items(), key=str), case["segs"], res["trace"]))
    return vs


def consecutive(res, prog):
    """One-iteration segments without wetting: the reported change is the change."""
    prev = None
    for o, rec in enumerate(res["clients"][0]):
        if prog[o]["seg"] < 0 or rec["status"] != "ok":
            continue
        p = np.asarray(thaw(rec["value"])[2], float)
        kw = prog[o]["kw"]
        if prev is not None and kw["ITER_MAX"] == 1 and kw.get("ITER_START_WETTING", 1) > 100:
            d = diag_of(rec)
            dp = p - prev
            with np.errstate(all="ignore"):
                want = {"Δp_RMS": np.sqrt(np.nanmean(dp**2)), "Δp_MAV": np.nanmean(abs(dp)), "Δp_Linf": np.nanmax(abs(dp))}
            for k, v in want.items():
                if not np.isclose(d[k][1], v, rtol=1e-9, atol=1e-12):
                    return [V("records", "%s is reported as %r, the surface moved by %r" % (k, d[k][1], v))]
        prev = p
    return []


def judge_tol(case, lab):
    sc = case["sc"]
    op = case["op"]
    n = op["kw"]["ITER_MAX"]
    long = copy.deepcopy(op)
    long["kw"].update(TOL_LRPD_MAV=0.0, TOL_P_CHANGE_RMS=0.0)
    ref = lab.ref(long, sc["objs"])
    if ref["status"] == "fatal":
        return fatal_v(ref)
    if ref["status"] != "ok":
        return []
    D = diag_of(ref)
    vs = lengths(D, n, "tolerances off, maximum %d" % n) + check_final(lab, ref, long, sc["objs"], "tolerances off")
    if vs:
        return vs
    rng = random.Random(case["pseed"])
    if "tols" not in case:
        # a tolerance just above or below what some iteration reaches
        sv = svol(op, sc["objs"])
        case["tols"] = {}
        if n:
            a, b = rng.randrange(1, n + 1), rng.randrange(1, n + 1)
            x = rng.random()
            up = rng.choice([1 + 1e-6, 1 - 1e-6, 1.5, 0.7])
            if x < 0.45:
                case["tols"] = {"TOL_LRPD_MAV": float(D["ϕ_MAV"][a]) * (1e6 if sv else 1.0) * up}
            elif x < 0.8:
                case["tols"] = {"TOL_P_CHANGE_RMS": float(D["Δp_RMS"][b]) * up, "TOL_LRPD_MAV": 0.0}
            else:
                case["tols"] = {"TOL_P_CHANGE_RMS": float(D["Δp_RMS"][b]) * up, "TOL_LRPD_MAV": float(D["ϕ_MAV"][a]) * (1e6 if sv else 1.0) * up}
            case["tols"] = {k: v for k, v in case["tols"].items() if np.isfinite(v)}
    o = sc["clients"][0][0]
    o["kw"].update(case["tols"])
    if case["pseed"] % 3 == 0:
        o["kw"]["diags"] = False
    sc["budget"] = budget([ref])
    res = lab.run(sc)
    vs = fatal_v(res)
    if vs:
        return vs
    rec = res["clients"][0][0]
    lo = o["kw"].get("ITER_MIN", 1)
    tl = o["kw"].get("TOL_LRPD_MAV", 1e-7) / (1e6 if svol(op, sc["objs"]) else 1.0)
    tp = o["kw"].get("TOL_P_CHANGE_RMS", 0.0)
    want = n
    for i in range(1, n + 1):
        if i >= lo and (D["ϕ_MAV"][i] < tl or (tp > 0 and D["Δp_RMS"][i] < tp)):
            want = i
            break
    close = any(tl > 0 and abs(D["ϕ_MAV"][i] / tl - 1) < 1e-9 for i in range(1, n + 1))
    where = "minimum %d, maximum %d, tolerances %s" % (lo, n, case["tols"])
    if rec["status"] != "ok":
        return [V("tolerance", "%s: raised %s: %s" % (where, rec["exc"], rec["msg"][:120]))]
    vs = check_final(lab, rec, o, sc["objs"], where)
    if o["kw"].get("diags", True):
        d = diag_of(rec)
        m = len(d["ϕ_MAV"]) - 1
        vs += lengths(d, m, where)
        if not close and m != want:
            vs.append(V("tolerance", "%s: stopped after %d iterations, should after %d (MAV of ϕ per iteration %s, RMS of Δp %s)" % (where, m, want, D["ϕ_MAV"].tolist(), D["Δp_RMS"].tolist())))
        for key in STATE + PER_ITER:
            if not vs and not np.array_equal(np.asarray(d[key]), np.asarray(D[key])[: m + 1], equal_nan=True):
                vs.append(V("records", "%s: %s is %s, in the longer run %s" % (where, key, d[key].tolist(), D[key][: m + 1].tolist())))
        want = m
    if not vs and not close:
        short = copy.deepcopy(long)
        short["kw"]["ITER_MAX"] = want
        r2 = lab.ref(short, sc["objs"])
        if r2["status"] == "ok":
            for k, nm in enumerate("stp"):
                d = world.diff(rec["value"][1][k], r2["value"][1][k], nm)
                if d:
                    vs.append(V("tolerance", "%s: not the surface of iteration %d: %s" % (where, want, d)))
                    break
    case["_nontrivial"] = repr((sorted(o["kw"].items(), key=str), res["trace"], want))
    return vs


def svol(op, objs):
    e = op["kw"].get("eos", "gsw")
    if isinstance(e, str):
        return e == "gsw"
    return objs[e["$"]].get("eos") == "gsw"


def shrink(case):
    sc = case["sc"]
    if case["kind"] == "segment":
        prog = sc["clients"][0]
        for o, x in enumerate(prog):
            if x["seg"] < 0:
                s = copy.deepcopy(sc)
                del s["clients"][0][o]
                s["faults"] = [dict(f, op=f["op"] - (f["op"] > o)) for f in s.get("faults", []) if f["op"] != o]
                yield dict(case, sc=prune(s))
    for i, k in enumerate(sorted(case["op"]["kw"])):
        if k in ("vert_dim", "eos", "diags", "ITER_MAX", "TOL_LRPD_MAV", "ITER_START_WETTING", "ITER_STOP_WETTING"):
            continue
        c = copy.deepcopy(case)
        c["op"]["kw"].pop(k)
        for o in c["sc"]["clients"][0]:
            if o["seg"] != -2:
                o["kw"].pop(k, None)
        yield c
