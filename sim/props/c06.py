"""C06: progress output is a faithful side channel."""
import copy
import random
import re

import numpy as np

from .. import ops, world
from ..lab import V, budget, fatal_v, prune, same, shrink_scenario, surfaced, text_of, thaw

RULE = "a case is a call with progress output, against the same call without, with its output redirected before or between two writes, with a write that fails and a retry, or compared number by number with its diagnostics; non-trivial when something was written or a write failed; distinct by (call, kind, fault)"
LANES = {"quick": {"interp": (3200, 100)}, "thorough": {"interp": (60000, 1500)}}
ASSUME = ["the numbers of a line are compared to the precision they are printed with, wherever they stand on the line"]
NUM = re.compile(r"(?<![\w.])[-+]?(?:\d+\.\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|\d+(?:[eE][-+]?\d+)?|nan|inf)(?![\w.])")


def make(rng, i, tier, lane):
    w = ops.World(rng, layouts=("nd", "nd", "xr"))
    fam = rng.choice(["omega", "omega", "omega", "iso", "iso", "stab"])
    if fam == "omega":
        op = ops.f_omega(w, iters=rng.choice([0, 1, 2, 3, 4]))
        if rng.random() < 0.4:
            op["kw"]["TOL_LRPD_MAV"] = 0.0
    elif fam == "iso":
        op = ops.f_isopyc(w, rng.choice(["potential", "anomaly"]))
    else:
        op = ops.f_stabilize(w)
    kind = rng.choice(["onoff", "numbers", "numbers", "fail", "fail", "swap", "none", "redirect", "silent"])
    if fam == "stab":
        op["kw"]["verbose"] = kind != "silent"
    else:
        if kind == "silent":
            how = rng.choice(["output", "diags", "both"])
            if how in ("output", "both"):
                op["kw"]["output"] = False
            elif rng.random() < 0.5:
                op["kw"]["output"] = True
            else:
                op["kw"].pop("output", None)
            if how in ("diags", "both"):
                op["kw"]["diags"] = False
            else:
                op["kw"]["diags"] = True
        else:
            op["kw"]["diags"] = True
            op["kw"]["output"] = True
            if rng.random() < 0.3:
                op["kw"].pop("output")
        if op["kw"]["diags"] and fam == "iso" and "grid" not in op["kw"]:
            op["kw"]["grid"] = ops.R(w.grid())
        if op["kw"]["diags"] and fam == "iso" and isinstance(op["kw"].get("eos"), dict):
            op["kw"].pop("grav", None), op["kw"].pop("rho_c", None)
            gsw = w.objs[op["kw"]["eos"]["$"]].get("eos") == "gsw"
            op["kw"]["eos"] = "gsw" if gsw else "jmd95"
    prog = [op]
    if kind == "fail":
        prog = [op, copy.deepcopy(op)]
        if rng.random() < 0.3:
            prog.append(ops.near_miss(w, op) if fam != "stab" else copy.deepcopy(op))
    sc = {"objs": w.objs, "clients": [prog], "stderr": 1, "clock": {"start": 1024.0, "per_read": rng.choice([0.0, 0.125, 1.5, 77.25])}}
    if kind == "redirect":
        sc["stdout"] = "alt"
    if kind == "none" and rng.random() < 0.5:
        sc["stdout"] = "none"
    return {"sc": prune(sc), "kind": kind, "fam": fam, "pseed": rng.randrange(1 << 30)}


def judge(case, lab):
    sc, kind = case["sc"], case["kind"]
    prog = sc["clients"][0]
    op = prog[0]
    extra = {"clock": sc["clock"]}
    refs = [lab.ref(o, sc["objs"], extra=extra) for o in prog]
    ref = refs[0]
    rng = random.Random(case["pseed"])
    if "faults" not in sc:
        sc["faults"] = []
        if ref["writes"] and ref["status"] == "ok":
            at = rng.randrange(ref["writes"])
            if kind == "fail":
                sc["faults"] = [{"client": 0, "op": 0, "kind": "stdout", "at": at, "exc": rng.choice(["ENOSPC", "EPIPE", "EIO", "KeyboardInterrupt", "ValueError", "UnicodeEncodeError", "BlockingIOError", "MemoryError"])}]
            elif kind == "swap":
                sc["faults"] = [{"client": 0, "op": 0, "kind": "stdout", "at": at, "what": "swap"}]
            elif kind == "none" and not sc.get("stdout"):
                sc["faults"] = [{"client": 0, "op": 0, "kind": "stdout", "at": at, "what": "none"}]
    sc["budget"] = budget(refs)
    res = lab.run(sc)
    vs = fatal_v(res)
    if vs:
        return vs
    fn = op["fn"]
    for o, rec in enumerate(res["clients"][0]):
        raised = [f for f in rec["fired"] if f.get("exc")]
        if raised:
            d = surfaced(rec)
            if d:
                vs.append(V("lost-write-error", "%s: %s" % (fn, d)))
            continue
        d = same(rec, refs[o])
        if d:
            vs.append(V("result", "%s with output %s, call %d: %s" % (fn, kind, o, d)))
        if kind in ("fail",) or (kind in ("onoff", "numbers", "silent")):
            if text_of(res, 0, o) != refs[o]["text"] and not rec["fired"]:
                vs.append(V("text", "%s, call %d: printed %r, alone %r" % (fn, o, text_of(res, 0, o)[-200:], refs[o]["text"][-200:])))
    main, alt = text_of(res, 0, 0), "".join(t for c, o, t in res["altlog"] if c == 0 and o == 0)
    stray = "".join(t for c, o, t in res["stray"]) + "".join(t for c, o, t in res["errlog"] if c == 0)
    if stray:
        vs.append(V("wrong-stream", "%s wrote %r to a stream that is not sys.stdout" % (fn, stray[:200])))
    if kind == "redirect" and (main or alt != ref["text"]):
        vs.append(V("wrong-stream", "%s: sys.stdout was redirected before the call, it got %r, the old stream %r" % (fn, alt[-200:], main[-200:])))
    if kind == "none" and sc.get("stdout") and (main or alt):
        vs.append(V("wrong-stream", "%s: sys.stdout was None but %r was written" % (fn, (main + alt)[-200:])))
    if kind in ("swap", "none") and sc["faults"]:
        at = sc["faults"][0]["at"]
        wl = ref["writelog"]
        hi = at
        while hi < len(wl) and not wl[hi].endswith("\n"):
            hi += 1
        ok = ["".join(wl[: j + 1]) for j in range(at, min(hi, len(wl) - 1) + 1)]
        if main not in ok:
            vs.append(V("wrong-stream", "%s: sys.stdout was replaced at write %d, the old stream got %r" % (fn, at, main[-200:])))
        elif kind == "swap" and main + alt != ref["text"]:
            vs.append(V("wrong-stream", "%s: sys.stdout was replaced at write %d, the new stream got %r" % (fn, at, alt[-200:])))
    if kind == "silent":
        if ref["text"] or main or alt:
            vs.append(V("not-silent", "%s printed %r with output off" % (fn, (ref["text"] or main or alt)[:200])))
        # and the surface is the one computed with output and diagnostics on
        if ref["status"] == "ok":
            vs += cross(lab, sc, op, ref, extra)
    if kind == "onoff" and ref["status"] == "ok":
        vs += cross(lab, sc, op, ref, extra)
    if kind == "numbers" and ref["status"] == "ok" and not vs:
        vs += numbers(case, ref, op, sc)
    if ref["text"] or kind == "silent":
        case["_nontrivial"] = repr((kind, op["fam"], sorted(op["kw"].items(), key=str), res["trace"]))
    return vs


def cross(lab, sc, op, ref, extra):
    """The same call with output toggled (and diagnostics on/off): same surface."""
    out = []
    o2 = copy.deepcopy(op)
    if op["fam"] == "stabilize":
        o2["kw"]["verbose"] = not op["kw"]["verbose"]
        r2 = lab.ref(o2, sc["objs"], extra=extra)
        d = same(ref, r2)
        return [V("output-changes-result", "stabilising with verbose=%s: %s" % (op["kw"]["verbose"], d))] if d else []
    o2["kw"]["output"] = not op["kw"].get("output", True)
    r2 = lab.ref(o2, sc["objs"], extra=extra)
    d = same(ref, r2)
    if d:
        out.append(V("output-changes-result", "%s output=%s: %s" % (op["fn"], op["kw"].get("output", True), d)))
    if op["kw"].get("diags", True):
        o2["kw"]["diags"] = False
        r2 = lab.ref(o2, sc["objs"], extra=extra)
        if r2["status"] != "ok":
            out.append(V("output-changes-result", "%s raises %s only with diags=False" % (op["fn"], r2.get("exc"))))
        else:
            for k, nm in enumerate("stp"):
                d = world.diff(ref["value"][1][k], r2["value"][1][k], nm)
                if d:
                    out.append(V("output-changes-result", "%s with diags on / off: %s" % (op["fn"], d)))
                    break
    return out


def ulp_of(tok):
    if "n" in tok:
        return 0.0
    m = tok.lower().split("e")
    dec = len(m[0].split(".")[1]) if "." in m[0] else 0
    return 10.0 ** ((int(m[1]) if len(m) > 1 else 0) - dec)


def matches(tok, v):
    """Does the printed number tok show the value v?"""
    try:
        x = float(tok)
    except ValueError:
        return False
    v = float(v)
    if np.isnan(v) or np.isinf(v):
        return str(x) == str(v)
    if np.isnan(x) or np.isinf(x):
        return False
    return abs(x - v) <= 0.5000001 * ulp_of(tok) + 4e-16 * abs(v)


def line_shows(line, vals):
    """Every value stands on the line and every number of the line is one of them."""
    toks = NUM.findall(line)
    left = list(toks)
    for nm, v in vals:
        fit = sorted((tk for tk in left if matches(tk, v)), key=ulp_of)
        if fit:
            left.remove(fit[0])  # the most precise one
        else:
            return "%s = %r is not on the line %r" % (nm, v, line)
    if left:
        return "the line %r shows %s, which is no diagnostic of this record" % (line, left)
    return None


def numbers(case, ref, op, sc):
    lines = [x for x in ref["text"].split("\n") if NUM.search(x)]
    fn = op["fn"]
    if op["fam"] == "stabilize":
        return stab_lines(ref, op, sc, lines)
    d = thaw(ref["value"])[3]
    if op["fam"] != "omega":
        if len(lines) != 1:
            return [V("text", "%s printed %d lines with numbers: %r" % (fn, len(lines), lines))]
        m = line_shows(lines[0], [("n_wet", d["n_wet"]), ("e_RMS", d["e_RMS"]), ("timer", d["timer"])])
        return [V("text", "%s: %s" % (fn, m))] if m else []
    n = len(d["e_RMS"])
    if len(lines) != n:
        return [V("text", "%s printed %d lines with numbers for %d diagnostics records: %r" % (fn, len(lines), n, lines))]
    for i, ln in enumerate(lines):
        vals = [("iteration", i), ("n_wet", d["n_wet"][i]), ("e_RMS", d["e_RMS"][i]), ("timer", d["timer"][i])]
        if i:
            vals += [("ϕ_MAV", d["ϕ_MAV"][i]), ("Δp_RMS", d["Δp_RMS"][i]), ("n_newly_wet", d["n_newly_wet"][i])]
        m = line_shows(ln, vals)
        if m:
            return [V("text", "%s: %s" % (fn, m))]
    return []


def stab_lines(ref, op, sc, lines):
    S1, T1 = (np.asarray(x, float) for x in thaw(ref["value"]))
    oc = world.build_ocean(sc["objs"][op["args"][0]["$"]])
    S0, T0 = (np.asarray(getattr(x, "values", x), float) for x in oc[:2])
    v = sc["objs"][op["args"][0]["$"]].get("vert", S0.ndim - 1)
    S0, T0, S1, T1 = (np.moveaxis(x, v, -1) for x in (S0, T0, S1, T1))
    w = op["kw"].get("weight", 10.0)
    ch = []
    for c in np.ndindex(S0.shape[:-1]):
        dS, dT = np.nan_to_num(S1[c] - S0[c]), np.nan_to_num(T1[c] - T0[c])
        if dS.any() or dT.any():
            ch.append((c, float(np.sum(w * dS * dS + dT * dT))))
    if len(lines) != len(ch):
        return [V("text", "stabilising printed %d lines for %d perturbed casts" % (len(lines), len(ch)))]
    for ln, (c, amt) in zip(lines, ch):
        toks = [float(x) for x in NUM.findall(ln)]
        if toks[: len(c)] != [float(x) for x in c]:
            return [V("text", "stabilising: the line %r should be about cast %s" % (ln, c))]
        if len(toks) != len(c) + 1 or abs(toks[-1] - amt) > 1e-4 * abs(amt) + 1e-15:
            return [V("text", "stabilising: the line %r should show the amount %r" % (ln, amt))]
    return []


def shrink(case):
    for s in shrink_scenario(case["sc"]):
        if s["clients"][0]:
            yield dict(case, sc=s)
