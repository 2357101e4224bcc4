"""What property modules use: references, runs, comparison, statistics."""
import collections
import copy
import json
import re

from . import child, ops, world

_HEX = re.compile(r"0x[0-9a-fA-F]+")


class Lab:
    def __init__(self):
        self.memo = {}
        self.st = collections.Counter()
        self.traces = set()
        self.sites = collections.Counter()
        self.fault_sites = collections.Counter()
        self.simtime = 0.0
        self.maxratio = 0.0

    # ------------------------------------------------------------ running
    def run(self, sc, timeout=90.0):
        res = child.simulate(sc, timeout)
        self.st["runs"] += 1
        self.st["ops"] += sum(len(c) for c in res["clients"])
        self.st["steps"] += res.get("gsteps", 0)
        self.st["switches"] += res.get("switches", 0)
        self.st["clock_reads"] += res.get("nreads", 0)
        self.st["poisoned_buffers"] += res.get("npoison", 0)
        self.st["observations"] += res.get("nobs", 0)
        for k, what, site in res.get("fired", []):
            self.st["fault:%s%s" % (k, ":" + what if what else "")] += 1
            self.fault_sites["%s@%s" % (k, site.split(":")[0])] += 1
        for s in res.get("sites", []):
            self.sites[s] += 1
        self.simtime += abs(res.get("simtime", 0.0))
        tr = res.get("trace", "")
        ok = "".join("k" if r["status"] == "ok" else "x" for c in res["clients"] for r in c)
        self.traces.add((tr, ok, res.get("gsteps", 0)))
        return res

    def ref(self, op, objs, mutable=(), extra=None):
        """The call alone, in a fresh process, no faults, frozen clock."""
        if op["fn"] == "@fork":
            op = op["op"]
        op = {k: v for k, v in op.items() if k not in ("poison", "keep", "fresh")}
        need = ops.used(op)
        descs = {n: objs[n] for n in sorted(need)}
        k = json.dumps([op, descs, extra], sort_keys=True)
        r = self.memo.get(k)
        if r is None:
            sc = {"objs": descs, "clients": [[op]], "sites": 1}
            if op["fn"] == "@stabilize_inplace":
                sc["dump"] = [op["args"][0]["$"]]
            sc.update(extra or {})
            res = child.simulate(sc)
            self.st["references"] += 1
            if res.get("fatal"):
                r = {"status": "fatal", "fatal": res["fatal"], "lsteps": 0, "kcalls": 0, "ecalls": {}, "writes": 0, "sites": [], "work": 1000, "text": "", "steps": 0}
            else:
                r = res["clients"][0][0]
                r["work"] = res["work"]
                r["text"] = "".join(t for c, o, t in res["log"] if c == 0)
                r["stray"] = "".join(t[2] for t in res["stray"])
                r["simtime"] = res["simtime"]
                r["nreads"] = res["nreads"]
                r["dump"] = res.get("dump")
                r["stalls"] = res["stalls"]
                r["writelog"] = [t for c, o, t in res["log"] if c == 0]
                first = {}
                for i, s in enumerate(r.get("sites") or []):
                    first.setdefault(s, []).append(i + 1)
                r["bysite"] = [first[s] for s in sorted(first)]
                r.pop("sites", None)
            if len(self.memo) > 300:
                self.memo.clear()
            self.memo[k] = r
        return r


def warmed(lab, sc, refs):
    """refs, with the line numbers each call has in this process's history (caches warm or full)."""
    rs = [[dict(r) for r in p] for p in refs]
    quiet = dict(sc, preempt=[], faults=[], sites=1, budget=budget([r for p in refs for r in p]))
    for c, recs in enumerate(lab.run(quiet)["clients"]):
        for o, rec in enumerate(recs):
            by = {}
            for n, s in enumerate(rec.get("sites") or []):
                by.setdefault(s, []).append(n + 1)
            rs[c][o].update(lsteps=rec["lsteps"], writes=rec["writes"], bysite=[by[s] for s in sorted(by)])
            for k in ("kcalls", "ecalls"):
                if k in rec:
                    rs[c][o][k] = rec[k]
    return rs


def fill(rng, n):
    return {"fam": "fill", "fn": "@fill", "args": [], "kw": {}, "n": n, "seed": rng.randrange(10**6)}


def pick_step(rng, ref):
    """A Python step of the call: usually a uniformly chosen line, then one of its visits."""
    n = max(1, ref["lsteps"])
    x = rng.random()
    if x < 0.7 and ref.get("bysite"):
        v = rng.choice(ref["bysite"])
        return rng.choice(v)
    if x < 0.85:
        return rng.randrange(1, n + 1)
    return 1 + int((n ** rng.random()))


def thaw(fz):
    """A frozen value as plain Python / numpy."""
    k = fz[0]
    if k == "nd":
        return fz[3]
    if k == "nd0":
        return fz[3]
    if k == "xr":
        return fz[6][3]
    if k == "dict":
        return {kk[1:-1] if kk[:1] in "'\"" else kk: thaw(v) for kk, v in fz[1]}
    if k in ("list", "tuple"):
        return [thaw(v) for v in fz[1]]
    if k == "py":
        return fz[2]
    if k == "pyf":
        return fz[1]
    return fz


def norm(msg):
    return _HEX.sub("0x", msg or "")


def same(rec, ref, text=None):
    """None if an outcome equals the reference outcome, else a description."""
    if ref["status"] == "fatal":
        return None  # the reference itself does not end; reported by C11
    if rec["status"] != ref["status"]:
        if rec["status"] == "exc":
            return "raised %s: %s, alone it returns" % (rec["exc"], rec["msg"][:160])
        return "returned, alone it raises %s: %s" % (ref["exc"], ref["msg"][:160])
    if rec["status"] == "exc":
        if rec["exc"] != ref["exc"]:
            return "raised %s: %s, alone it raises %s" % (rec["exc"], rec["msg"][:120], ref["exc"])
        return None
    return world.diff(rec["value"], ref["value"], "result")


def text_of(res, c, o):
    return "".join(t for cc, oo, t in res["log"] if cc == c and oo == o)


def same_text(res, c, o, rec, ref):
    """None if a finished call wrote exactly what it writes alone (the simulated clock stands still)."""
    t = text_of(res, c, o)
    if rec["status"] == "ok" and ref["status"] == "ok" and t != ref["text"]:
        return "printed %r, alone %r" % (t[:150], ref["text"][:150])
    return None


def budget(refs):
    return 60 * sum(r.get("work", 1000) for r in refs) + 200000


def V(cls, msg):
    return {"class": cls, "msg": msg[:600]}


def fatal_v(res):
    f = res.get("fatal")
    if not f:
        return []
    return [V("hang" if f[0] in ("hang", "timeout") else f[0], "%s: %s" % tuple(f))]


def prune(sc):
    """Drop objects no op uses."""
    need = set()
    for c in sc["clients"] + [sc.get("prelude", [])]:
        for op in c:
            need |= ops.used(op)
            if op["fn"] == "@edit":
                need.add(op["obj"])
    for f in sc.get("faults", []):
        if "do" in f:
            need |= ops.used(f["do"])
    sc["objs"] = {n: d for n, d in sc["objs"].items() if n in need}
    return sc


# ------------------------------------------------------------------ shrinking
def shrink_scenario(sc):
    """Simpler variants of a scenario, most drastic first."""

    def cp():
        return copy.deepcopy(sc)

    n = len(sc["clients"])
    if n > 1:
        for i in range(n):
            s = cp()
            s["clients"][i] = []
            s["preempt"] = [p for p in s.get("preempt", []) if p[0] != i]
            s["faults"] = [f for f in s.get("faults", []) if f["client"] != i]
            if sum(1 for c in s["clients"] if c) >= 1 and sc["clients"][i]:
                yield prune(s)
    if len(sc.get("preempt", [])) > 3:
        for h in (0, 1):
            s = cp()
            m = len(s["preempt"]) // 2
            s["preempt"] = s["preempt"][:m] if h else s["preempt"][m:]
            yield s
    for i in range(len(sc.get("preempt", []))):
        s = cp()
        del s["preempt"][i]
        yield s
    for i in range(len(sc.get("faults", []))):
        s = cp()
        del s["faults"][i]
        yield s
    for i in range(n):
        for j in range(len(sc["clients"][i])):
            s = cp()
            del s["clients"][i][j]
            s["preempt"] = [[p[0], p[1] - (p[0] == i and p[1] > j)] + p[2:] for p in s.get("preempt", []) if not (p[0] == i and p[1] == j)]
            fs = []
            for f in s.get("faults", []):
                if f["client"] == i and f["op"] == j:
                    continue
                if f["client"] == i and f["op"] > j:
                    f["op"] -= 1
                fs.append(f)
            s["faults"] = fs
            if any(s["clients"]):
                yield prune(s)
    for j in range(len(sc.get("prelude", []))):
        s = cp()
        del s["prelude"][j]
        yield prune(s)
    for k in ("end_order", "ambient", "dask", "observe"):
        if sc.get(k):
            s = cp()
            del s[k]
            yield s
    for i in range(n):
        for j, op in enumerate(sc["clients"][i]):
            for k in sorted(op.get("kw", {})):
                if k in ("vert_dim", "grid", "pin_cast", "pin_p", "eos", "ref", "isoval", "diags"):
                    continue
                s = cp()
                del s["clients"][i][j]["kw"][k]
                yield prune(s)


# ------------------------------------------------------------------ faults
def gen_fault(rng, ref, client, op, kinds=None):
    """One fault inside a call, chosen among what that call meets."""
    ch = ["interrupt"] * 4
    if ref["kcalls"]:
        ch += ["kernel"] * 2
    for k in ("solver", "minimizer", "read"):
        if ref["ecalls"].get(k):
            ch += [k] * 2
    if ref["writes"]:
        ch += ["stdout"]
    if kinds:
        ch = [c for c in ch if c in kinds] or ["interrupt"]
    k = rng.choice(ch)
    f = {"client": client, "op": op, "kind": k}
    if k == "interrupt":
        f["at"] = pick_step(rng, ref)
        f["exc"] = rng.choice(["KeyboardInterrupt"] * 6 + ["MemoryError"] * 2 + ["SystemExit"])
    elif k == "kernel":
        n = ref["kcalls"]
        f["at"] = rng.randrange(1, n + 1) if rng.random() < 0.6 else 1 + int(n ** rng.random())
        f["exc"] = rng.choice(["MemoryError", "InjectedError", "ZeroDivisionError", "FloatingPointError", "ValueError"])
    elif k == "stdout":
        f["at"] = rng.randrange(ref["writes"])
        f["exc"] = rng.choice(["ENOSPC", "EPIPE", "KeyboardInterrupt"])
    else:
        f["at"] = rng.randrange(ref["ecalls"][k])
        f["what"] = rng.choice(["raise", "raise", "raise_after"])
        if k == "solver":
            f["exc"] = rng.choice(["LinAlgError", "MemoryError", "InjectedError", "KeyboardInterrupt", "RuntimeError", "ValueError"])
        elif k == "minimizer":
            f["exc"] = rng.choice(["LinAlgError", "MemoryError", "InjectedError", "KeyboardInterrupt", "ValueError"])
            if rng.random() < 0.25:
                f["what"] = "unsuccessful"
                del f["exc"]
        else:
            f["exc"] = rng.choice(["EIO", "TimeoutError", "KeyboardInterrupt", "RuntimeError", "ValueError", "MemoryError", "KeyError"])
    return f


def surfaced(rec):
    """None if a call in which a fault fired reported it properly."""
    f = rec["fired"][0]
    what = "%s %s at step %d" % (f["kind"], f.get("exc") or f.get("what"), f["at"])
    if rec["status"] != "exc":
        return "%s was swallowed: the call returned" % what
    if f.get("what") == "unsuccessful":
        return None
    if f.get("exc") == "KeyboardInterrupt" and not rec["ki"]:
        return "%s was turned into %s: %s" % (what, rec["exc"], rec["msg"][:100])
    if f.get("exc") == "SystemExit" and rec["exc"] != "SystemExit":
        return "%s was turned into %s" % (what, rec["exc"])
    if not rec["injected"]:
        return "%s was lost, %s: %s was raised instead" % (what, rec["exc"], rec["msg"][:100])
    return None
