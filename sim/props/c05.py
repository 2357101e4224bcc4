"""C05: the clock affects reported timers only, and the timers account for real time."""
import copy
import random

import numpy as np

from .. import ops
from ..lab import V, budget, fatal_v, pick_step, prune, same, shrink_scenario, thaw

RULE = "a case is 1-2 threads computing surfaces while the simulated clock stalls (in the solver, in a kernel, in a write, between two lines), jumps forwards or backwards, or runs at some rate; non-trivial when the clock was read and moved; distinct by (calls, clock program, stall sites)"
LANES = {"quick": {"interp": (3200, 100)}, "thorough": {"interp": (60000, 1500)}}
ASSUME = ["a stall's phase is taken from the library frames on the stack when it happened (file bfs.py, file _vertsolve.py, function ntp_epsilon_errors_norms); a stall elsewhere only has to satisfy the accounting rule", "time passes only where the simulator says so, so timers can be compared exactly"]
COMP = ("timer_bfs", "timer_mat", "timer_update")


def make(rng, i, tier, lane):
    w = ops.World(rng, layouts=("nd", "nd", "xr"))
    kind = rng.choice(["stall", "stall", "stall", "program", "rate"])
    if rng.random() < 0.25:
        op = ops.f_isopyc(w, rng.choice(["potential", "anomaly"]))
    else:
        op = ops.f_omega(w, iters=rng.choice([0, 1, 2, 2, 3, 4]))
        if rng.random() < 0.5:
            op["kw"]["TOL_LRPD_MAV"] = 0.0
    clients = [[op]]
    if kind != "stall":
        if rng.random() < 0.3:
            clients[0].append(ops.gen_op(w, rng.choice([None, ["omega"], ["potential"]])))
        if rng.random() < 0.35:
            clients.append([ops.near_miss(w, op)])
    else:
        op["kw"]["diags"] = True
        if op["fam"] == "omega":
            pass
        elif "grid" not in op["kw"]:
            op["kw"]["grid"] = ops.R(w.grid())
            for k in ("eos", "grav", "rho_c"):
                op["kw"].pop(k, None)
            op["kw"].update({"eos": "jmd95"})
            if "isoval" in op["kw"]:
                op["kw"]["isoval"] = 1031.5 if op["fam"] == "potential" else 0.01
    sc = {"objs": w.objs, "clients": clients}
    clk = {"start": rng.choice([1.6e9, 0.0, 1024.0, -5000.0, 2.0**31 - 4, 4.1e9])}
    if kind == "program":
        n = rng.choice([3, 10, 40])
        big = rng.choice([1.0, 3600.0, 1e6, 1e9])
        clk["reads"] = [rng.choice([0.0, rng.uniform(-1, 1) * big, big, -big, rng.uniform(0, 1e-3)]) for _ in range(n)]
        clk["per_read"] = rng.choice([0.0, 0.125, 1e4, -2.0])
    elif kind == "rate":
        clk["start"] = 1024.0
        clk["per_read"] = rng.choice([2.0**-10, 1.0, 16.0, 4096.0])
    sc["clock"] = clk
    return {"sc": prune(sc), "kind": kind, "pseed": rng.randrange(1 << 30)}


def gen_stall(rng, ref):
    ch = ["lstall", "lstall"]
    if ref["kcalls"]:
        ch += ["kstall"] * 3
    if ref["ecalls"].get("solver"):
        ch += ["solver"] * 2
    if ref["writes"]:
        ch += ["stdout"]
    k = rng.choice(ch)
    f = {"client": 0, "op": 0, "kind": k, "dt": float(rng.choice([1, 4, 64, 1024, 2**20]))}
    if k == "lstall":
        f["at"] = pick_step(rng, ref)
    elif k == "kstall":
        f["at"] = rng.randrange(1, ref["kcalls"] + 1)
    elif k == "solver":
        f["at"] = rng.randrange(ref["ecalls"]["solver"])
        f["what"] = "stall"
    else:
        f["at"] = rng.randrange(ref["writes"])
        f["what"] = "stall"
    return f


def judge(case, lab):
    sc = case["sc"]
    refs = [[lab.ref(op, sc["objs"]) for op in p] for p in sc["clients"]]
    rng = random.Random(case["pseed"])
    if "faults" not in sc:
        sc["faults"] = []
        sc["preempt"] = []
        if case["kind"] == "stall" and refs[0][0]["status"] == "ok":
            sc["faults"] = [gen_stall(rng, refs[0][0])]
        elif case["kind"] == "program" and refs[0][0]["status"] == "ok" and rng.random() < 0.4:
            sc["faults"] = [dict(gen_stall(rng, refs[0][0]), dt=rng.choice([1e5, 1e8]))]
        if len(sc["clients"]) > 1:
            for _ in range(rng.choice([1, 2, 4])):
                c = rng.randrange(len(refs))
                o = rng.randrange(len(refs[c]))
                sc["preempt"].append([c, o, "l", pick_step(rng, refs[c][o]), rng.randrange(3)])
    sc["budget"] = budget([r for p in refs for r in p])
    res = lab.run(sc)
    vs = fatal_v(res)
    for c, recs in enumerate(res["clients"]):
        for o, rec in enumerate(recs):
            op = sc["clients"][c][o]
            d = same(rec, refs[c][o])
            if d:
                vs.append(V("clock-changes-result", "thread %d call %d (%s): %s" % (c, o, op["fn"], d)))
                continue
            if rec["status"] == "ok" and op["fam"] in ("omega", "potential", "anomaly") and op["kw"].get("diags", True):
                if case["kind"] == "rate":
                    vs += accounting(rec, op, c, o)
                elif case["kind"] == "stall":
                    vs += attribution(rec, refs[c][o], op, [s for s in res["stalls"] if s[1] == c and s[2] == o])
    if res.get("nreads") and (res.get("simtime") or sc["clock"].get("reads")):
        case["_nontrivial"] = repr((res["trace"], sc["clock"], [s[4] for s in res["stalls"]]))
    return vs


def timers(rec):
    d = thaw(rec["value"])[3]
    return {k: np.atleast_1d(np.asarray(d[k], dtype=float)) for k in d if k.startswith("timer")}


def accounting(rec, op, c, o):
    t = timers(rec)
    if not t:
        return []
    for k, v in t.items():
        if not (np.isfinite(v).all() and (v >= 0).all()):
            return [V("timer-accounting", "%s: %s = %s under a steady clock" % (op["fn"], k, v.tolist()))]
    if op["fam"] == "omega":
        tot = sum(t[k] for k in COMP if k in t)
        if (t["timer"] < tot).any():
            return [V("timer-accounting", "%s: total %s is less than the sum of the parts %s" % (op["fn"], t["timer"].tolist(), np.asarray(tot).tolist()))]
    return []


def attribution(rec, ref, op, stalls):
    t = timers(rec)
    if len(stalls) != 1 or not t:
        return []
    dt, _, _, what, name, ecalls, _, stack = stalls[0]
    files = [f for f, _ in stack]
    fns = [n for _, n in stack]
    desc = "%s: a delay of %g s in %s (%s)" % (op["fn"], dt, what, name)
    out = []

    def bad(msg):
        out.append(V("timer-attribution", "%s %s; timers %s" % (desc, msg, {k: v.tolist() for k, v in t.items()})))

    # accounting: every timer entry is 0 or the whole delay, and it is counted once
    for k, v in t.items():
        if ((v != 0) & (v != dt)).any():
            bad("is reported as something else in %s" % k)
            return out
        if (v != 0).sum() > 1:
            bad("is counted more than once in %s" % k)
            return out
    if op["fam"] != "omega":
        tot = t["timer"][0]
        if what == "stdout" or (what == "kernel" and "ntp_epsilon_errors_norms" in fns):
            if tot:
                bad("is in the timer")
        elif what == "kernel" and outer(stack) == "_vertsolve.py" and not tot:
            bad("is not in the timer")
        return out
    comp = [(k, int(np.argmax(t[k] != 0))) for k in COMP if k in t and (t[k] != 0).any()]
    tot = int(np.argmax(t["timer"] != 0)) if (t["timer"] != 0).any() else None
    if len(comp) > 1:
        bad("is in more than one component timer")
        return out
    if comp and tot != comp[0][1]:
        bad("is in a component timer of iteration %d but in the total of iteration %s" % (comp[0][1], tot))
        return out
    n = len(t["timer"]) - 1
    one = ref["ecalls"].get("solver", 0) == n  # one solve per iteration
    done = ecalls.get("solver", 0)
    if what == "stdout" or (what == "kernel" and "ntp_epsilon_errors_norms" in fns):
        if tot is not None or comp:
            bad("is in a timer")
    elif what == "solver" and one:
        if comp != [("timer_mat", done)]:
            bad("should be in the matrix timer of iteration %d" % done)
    elif what == "kernel" and one:
        o = outer(stack)
        if o == "bfs.py":
            init = done == 0 and np.isscalar(op["args"][5])
            if comp and comp[0] != ("timer_bfs", done + 1):
                bad("should be in the connectivity timer of iteration %d" % (done + 1))
            elif tot is None or tot not in ((0, 1) if init else (done + 1,)):
                bad("should be in the total of iteration %d" % (done + 1))
            elif tot > 0 and not comp:
                bad("should be in the connectivity timer of iteration %d" % (done + 1))
        elif o == "_vertsolve.py":
            if comp != [("timer_update", done)]:
                bad("should be in the update timer of iteration %d" % done)
    return out


def outer(stack):
    """File of the outermost kernel-side library frame that names a phase."""
    for f, n in stack:
        if f in ("bfs.py", "_vertsolve.py"):
            return f
        if f == "ntp.py":
            return f
    return None


def shrink(case):
    for s in shrink_scenario(case["sc"]):
        yield dict(case, sc=s)
    clk = case["sc"].get("clock", {})
    for k in ("reads", "per_read"):
        if clk.get(k):
            s = copy.deepcopy(case["sc"])
            del s["clock"][k]
            yield dict(case, sc=s)
    if len(clk.get("reads", [])) > 1:
        s = copy.deepcopy(case["sc"])
        s["clock"]["reads"] = clk["reads"][: len(clk["reads"]) // 2]
        yield dict(case, sc=s)
