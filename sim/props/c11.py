"""C11: losing some data never disturbs the results elsewhere, nor stops the computation."""
import copy

import numpy as np

from .. import ops
from ..lab import V, budget, fatal_v, prune, shrink_scenario, thaw

RULE = "a case is one session: a call, then some casts are lost or cut short in the caller's arrays, the call again, more loss, the call again; every outcome is compared, cast by cast, with the undamaged call in a fresh process; non-trivial when something was lost and the undamaged call returned; distinct by (call, dataset, damage)"
LANES = {"quick": {"interp": (6000, 120)}, "thorough": {"interp": (50000, 1500)}}
ASSUME = ["salinity and temperature are lost together, as the library documents"]
KINDS = ["iso", "iso", "iso", "mixed", "unstable", "stab", "traj", "traj", "rows", "ntp", "wall", "wall", "omega", "omega", "pinlost", "bottle", "bottle", "veronis"]
LAY = ("nd", "nd", "F", "strided", "xr")


def gen_damage(rng, cand, nk, hasP):
    n = rng.choice([1, 1, 2, max(1, len(cand) - 1), len(cand)])
    lost = sorted(rng.sample(cand, min(n, len(cand)))) if rng.random() < 0.85 else []
    rest = [c for c in cand if c not in lost]
    tr = [[c, rng.randrange(1, nk)] for c in rest if rng.random() < 0.3] if rest and rng.random() < 0.5 else []
    if not lost and not tr:
        lost = [rng.choice(cand)]
    return {"what": "lose", "casts": lost, "trunc": tr, "P": hasP and rng.random() < 0.4}


def make(rng, i, tier, lane):
    kind = rng.choice(KINDS)
    sh = None
    if kind == "wall":
        sh = [5, rng.choice([1, 2, 3]), rng.choice([5, 6])]
    w = ops.World(rng, shape=sh, layouts=LAY)
    if kind == "wall":
        w.pini = rng.randrange(2 * sh[1])
        w.pinc = [w.pini // sh[1], w.pini % sh[1]]
    pin = w.pini
    edits = []
    if kind in ("iso", "pinlost"):
        op = ops.f_isopyc(w, rng.choice(["potential", "anomaly"]))
        oc = op["args"][0]["$"]
        while kind == "pinlost" and "pin_p" not in op["kw"]:
            op = ops.f_isopyc(w, rng.choice(["potential", "anomaly"]))
            oc = op["args"][0]["$"]
    elif kind == "mixed":
        op = ops.f_mixed(w)
    elif kind == "unstable":
        oc = w.new_ocean(unstable=[rng.randrange(9) for _ in range(rng.choice([1, 3]))])
        op = ops.f_unstable(w, oc)
    elif kind == "stab":
        oc = ops.stab_ocean(w)
        op = ops.f_stabilize(w, oc)
    elif kind == "traj":
        op = ops.f_traj(w)
        if w.objs[op["args"][0]["$"]]["layout"] == "ro":
            w.objs[op["args"][0]["$"]]["layout"] = "nd"
    elif kind in ("bottle", "veronis"):
        op = ops.f_bottle(w) if kind == "bottle" else ops.f_veronis(w)
        if kind == "bottle" and rng.random() < 0.5:
            op["args"][:3] = [34.9, round(rng.uniform(5, 9), 3), 500.0]
        d = w.objs[op["args"][3 if kind == "bottle" else 1]["$"]]
        if d["layout"] == "ro":
            d["layout"] = "nd"
    elif kind == "rows":
        op = ops.f_interp(w)
        while len(w.objs[op["args"][-2 if op["fam"] == "interp" else 1]["$"]]["shape"] if isinstance(op["args"][1], dict) else [0]) < 2:
            op = ops.f_interp(w)
    elif kind == "ntp":
        op = ops.f_ntp(w)
        op["fn"] = "neutralocean.ntp:ntp_epsilon_errors"
    elif kind == "wall":
        nj = w.shape[1]
        oc = w.new_ocean(land=list(range(2 * nj, 3 * nj)) + ([x for x in [rng.randrange(2 * nj)] if x != pin] if rng.random() < 0.3 else []))
        w.grids.append(w.new_grid(wrap=[0, 0]))
        op = ops.f_omega(w, oc)
        op["args"][3] = ops.R(w.grids[0])
    else:
        op = ops.f_omega(w)
        if rng.random() < 0.2:
            op["kw"]["p_ml"] = ops.R(w.add("pm", {"k": "rand", "seed": 1, "lo": 300.0, "hi": 1700.0, "shape": w.hs}))
    main = op["args"][{"bottle": 3, "veronis": 1}.get(kind, 0)]
    nr = rng.choice([1, 1, 2])
    if kind == "rows":
        ys = [a["$"] for a in op["args"] if isinstance(a, dict) and a["$"][0] in "YZ"]
        n = int(np.prod(w.objs[ys[0]]["shape"][:-1]))
        for _ in range(nr):
            lost = sorted(rng.sample(range(n), rng.choice([1, 2, n])))
            tr = [[r, rng.randrange(1, 4)] for r in range(n) if r not in lost and rng.random() < 0.2]
            edits.append([[y, {"casts": [], "rows": lost, "trunc": tr}] for y in ys])
    elif kind == "ntp":
        n = w.ncast
        for _ in range(nr):
            lost = sorted(rng.sample(range(n), min(n, rng.choice([1, 2, 3]))))
            edits.append([[a["$"], {"what": "lose", "casts": lost}] for a in op["args"][:3]])
    else:
        oc = main["$"]
        d = w.objs[oc]
        if d["layout"] == "ro":
            d["layout"] = "nd"
        if not d.get("p1d") and "pspread" not in d and rng.random() < 0.4:
            d["pspread"] = 0.6
        if "eos" in op["kw"] and kind in ("iso", "pinlost") and rng.random() < 0.3:
            op["kw"]["TOL_P_SOLVER"] = rng.choice([0.01, 2.0, 20.0])
        n = int(np.prod(d["shape"][:-1]))
        cand = list(range(n))
        if kind in ("iso", "omega") and ("pin_p" in op["kw"] or kind == "omega"):
            cand.remove(pin)
        if kind == "wall":
            cand = list(range(3 * w.shape[1], n))
        for r in range(nr):
            if not cand:
                break
            e = gen_damage(rng, cand, d["shape"][-1], not d.get("p1d") and kind != "veronis")
            if kind == "pinlost":
                e["casts"] = sorted(set(e["casts"]) | {pin})
                e["trunc"] = [t for t in e["trunc"] if t[0] != pin]
            edits.append([[oc, e]])
    prog = [op]
    for e in edits:
        prog += [{"fn": "@edit", "fam": "edit", "obj": o, "edit": x} for o, x in e] + [copy.deepcopy(op)]
    if kind == "bottle":
        # the bottle itself may come from a lost cast
        for j in rng.sample([[0, 1, 2], [0, 1], [2], [0], [1]], 2):
            q = copy.deepcopy(op)
            q["lostbottle"] = j
            for n in j:
                q["args"][n] = {"$nan": 1}
            prog.insert(rng.choice([1, len(prog)]), q)
    return {"kind": kind, "pin": w.pinc, "sc": prune({"objs": w.objs, "clients": [prog]})}


def beq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")


def together(s, t, p):
    a, b, c = (np.isnan(np.asarray(x)) for x in (s, t, p))
    return bool((a == b).all() and (b == c).all())


def judge(case, lab):
    sc, kind = case["sc"], case["kind"]
    prog = sc["clients"][0]
    op = prog[0]
    if op["fn"] == "@edit":
        return []
    ref = lab.ref(op, sc["objs"])
    if ref["status"] == "fatal":
        return fatal_v(ref)
    sc["budget"] = budget([ref] * len(prog))
    res = lab.run(sc)
    vs = fatal_v(res)
    if vs:
        return vs
    fn = op["fn"].split(":")[-1]
    v0 = thaw(ref["value"]) if ref["status"] == "ok" else None
    lost, trunc, plost = set(), {}, False
    nlost = 0
    for o, rec in enumerate(res["clients"][0]):
        q = prog[o]
        if q["fn"] == "@edit":
            lost |= set(q["edit"]["casts"]) | set(q["edit"].get("rows", []))
            for i, k in q["edit"].get("trunc", []):
                trunc[i] = min(k, trunc.get(i, 99))
            nlost += 1
            lab.st["fault:cast_lost"] += len(q["edit"]["casts"]) + len(q["edit"].get("rows", []))
            lab.st["fault:cast_cut_short"] += len(q["edit"].get("trunc", []))
            continue
        where = "%s%s" % (fn, " with casts %s lost%s" % (sorted(lost), ", %s cut at level" % trunc if trunc else "") if nlost else "")
        if ref["status"] != "ok":
            if nlost == 0 and (rec["status"] == "ok" or rec["exc"] != ref["exc"]):
                vs.append(V("unstable-outcome", "%s: alone it raises %s" % (where, ref["exc"])))
            continue
        if rec["status"] != "ok":
            vs.append(V("stopped", "%s raised %s: %s" % (where, rec["exc"], rec["msg"][:200])))
            continue
        if nlost:
            case["_nontrivial"] = repr((op, sc["objs"], sorted(lost), sorted(trunc.items())))
            lab.st["probe:lost_casts"] += len(lost)
            lab.st["probe:" + kind] += 1
        if q.get("lostbottle"):
            lab.st["fault:bottle_lost"] += 1
            case["_nontrivial"] = repr((q, sc["objs"], sorted(lost), sorted(trunc.items())))
            if not np.isnan(thaw(rec["value"])).all():
                vs.append(V("invented", "%s gives %s from a bottle whose values %s are NaN" % (fn, thaw(rec["value"]), q["lostbottle"])))
            continue
        m = compare(case, lab, op, v0, thaw(rec["value"]), lost, trunc)
        for c, x in m:
            vs.append(V(c, "%s: %s" % (where, x)))
    return vs


def compare(case, lab, op, v0, v, lost, trunc):
    sc, kind = case["sc"], case["kind"]
    out = []
    hit = set(lost) | set(trunc)
    if kind in ("iso", "pinlost", "wall", "omega"):
        s, t, p = v[:3]
        if not together(s, t, p):
            out.append(("not-together", "salinity, temperature and pressure are not missing together: %s %s %s" % tuple(int(np.isnan(x).sum()) for x in (s, t, p))))
    if kind in ("iso", "wall"):
        shape = p.shape
        far = range(2 * shape[1]) if kind == "wall" else [i for i in range(p.size) if i not in hit]
        for i in far:
            c = np.unravel_index(i, shape)
            for n, a, b in zip("stp", v[:3], v0[:3]):
                if not beq(a[c], b[c]):
                    out.append(("disturbed", "%s at intact cast %s is %r, undamaged %r" % (n, c, a[c], b[c])))
                    return out
    if kind == "iso":
        for k in ("ref", "isoval"):
            if repr(v[3].get(k)) != repr(v0[3].get(k)):
                out.append(("disturbed", "d[%r] is %r, undamaged %r" % (k, v[3].get(k), v0[3].get(k))))
    if kind in ("iso", "pinlost", "omega"):
        d = sc["objs"][op["args"][0]["$"]]
        from .. import world

        S, T, P = world.ocean_arrays(d)
        for i in lost:
            c = np.unravel_index(i, p.shape)
            if not np.isnan(p[c]):
                out.append(("invented", "p = %r at lost cast %s" % (p[c], c)))
        for i, k in trunc.items():
            c = np.unravel_index(i, p.shape)
            Pc = (P if P.ndim == 1 else P[c])[:k]
            if i not in lost and np.isfinite(p[c]) and not (k > 1 and p[c] <= Pc.max() * (1 + 1e-6)):
                out.append(("invented", "p = %r at cast %s whose data now end at %r" % (p[c], c, Pc.max())))
    if kind == "wall" and len(v[3]) and len(v0[3]):
        if v[3].keys() != v0[3].keys() or any(len(v[3][k]) != len(v0[3][k]) for k in v[3]):
            out.append(("disturbed", "number of iterations changed"))
    if kind == "omega":
        pi = op["args"][5]
        ij = tuple(case["pin"])
        if not isinstance(pi, dict) and p[ij] != pi:
            out.append(("pin-moved", "p at the pinning cast is %r, not %r" % (p[ij], pi)))
    if kind == "mixed":
        for i in range(v.size):
            c = np.unravel_index(i, v.shape)
            if i in lost:
                if not np.isnan(v[c]):
                    out.append(("invented", "mixed layer %r at lost cast %s" % (v[c], c)))
            elif i not in hit and not beq(v[c], v0[c]):
                out.append(("disturbed", "mixed layer at intact cast %s is %r, undamaged %r" % (c, v[c], v0[c])))
    if kind == "unstable":
        oc = op["args"][0]["$"]
        d = copy.deepcopy(sc["objs"][oc])
        n = int(np.prod(d["shape"][:-1]))
        d["land"] = sorted(set(d.get("land", [])) | (set(range(n)) - lost))
        gone = lab.ref(op, dict(sc["objs"], **{oc: d}))
        if gone["status"] != "ok":
            out.append(("stopped", "counting in the lost casts alone raised %s" % gone.get("exc")))
        else:
            exp = v0 - thaw(gone["value"])
            live = [i for i in trunc if i not in lost]
            if not live and v != exp:
                out.append(("disturbed", "%s instabilities counted, %s undamaged less %s in the lost casts" % (v, v0, v0 - exp)))
            if live and not 0 <= v <= exp:
                out.append(("disturbed", "%s instabilities counted, more than the %s of all intact data" % (v, exp)))
    if kind == "stab":
        d = sc["objs"][op["args"][0]["$"]]
        ax = d.get("vert", -1)
        for n, A, B in zip("ST", v, v0):
            A, B = np.moveaxis(A, ax, -1), np.moveaxis(B, ax, -1)
            for i, c in enumerate(np.ndindex(A.shape[:-1])):
                if i in lost:
                    if not np.isnan(A[c]).all():
                        out.append(("invented", "%s at lost cast %s" % (n, c)))
                elif i not in hit and not beq(A[c], B[c]):
                    out.append(("disturbed", "%s at intact cast %s differs from the undamaged run" % (n, c)))
    if kind in ("bottle", "veronis"):
        i = op["args"][3 if kind == "bottle" else 1]["at"][0]
        if kind == "bottle" and not together(*v):
            out.append(("not-together", "salinity, temperature and pressure are not missing together: %s %s %s" % tuple(v)))
        if i in lost:
            if not np.isnan(v).all():
                out.append(("invented", "%s on lost cast %d" % (v, i)))
        elif i not in trunc and repr(v) != repr(v0):
            out.append(("disturbed", "%s on intact cast %d, undamaged %s" % (v, i, v0)))
    if kind == "traj":
        s, t, p = v
        if not together(s, t, p):
            out.append(("not-together", "salinity, temperature and pressure are not missing together: %s %s %s" % (s, t, p)))
        first = min(hit) if hit else len(p)
        for n, a, b in zip("stp", v, v0):
            if not beq(a[:first], b[:first]):
                out.append(("disturbed", "%s changed before the first damaged cast %d: %s, undamaged %s" % (n, first, a, b)))
        if lost and np.isfinite(p[min(lost):]).any():
            out.append(("invented", "the trajectory goes on past lost cast %d: %s" % (min(lost), p)))
    if kind == "rows":
        for a, b in zip(v if isinstance(v, list) else [v], v0 if isinstance(v0, list) else [v0]):
            for i, c in enumerate(np.ndindex(a.shape[:2])):
                if i in lost:
                    if not np.isnan(a[c]).all():
                        out.append(("invented", "row %s was lost but gives %r" % (c, a[c])))
                elif i not in hit and not beq(a[c], b[c]):
                    out.append(("disturbed", "row %s gives %r, undamaged %r" % (c, a[c], b[c])))
    if kind == "ntp":
        from .. import world

        g = world.build_obj(sc["objs"][op["args"][3]["$"]], None)
        a, b = g["edges"] if isinstance(g, dict) else g
        bad = np.isin(a, sorted(lost)) | np.isin(b, sorted(lost))
        if not np.isnan(v[bad]).all():
            out.append(("invented", "a neutrality error next to a lost cast is not NaN"))
        if not beq(v[~bad], v0[~bad]):
            out.append(("disturbed", "neutrality errors away from lost casts changed"))
    return out[:3]


def shrink(case):
    for s in shrink_scenario(case["sc"]):
        p = s["clients"][0]
        if len(p) >= 2 and p[0]["fn"] != "@edit":
            yield dict(case, sc=s)
    sc = case["sc"]
    for j, q in enumerate(sc["clients"][0]):
        if q["fn"] == "@edit":
            for k in ("casts", "trunc", "rows"):
                for n in range(len(q["edit"].get(k, []))):
                    c = copy.deepcopy(case)
                    del c["sc"]["clients"][0][j]["edit"][k][n]
                    yield c
