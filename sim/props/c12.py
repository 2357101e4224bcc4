"""C12: the example dataset loader yields only complete, verified data or an error."""
import copy
import os
import shutil
import tempfile

import numpy as np

from .. import occa, world
from ..lab import V, thaw

RULE = "a case is a history of 1-4 processes sharing one cache directory, each with 1-2 concurrent clients loading the dataset 1-2 times, under network faults, disk faults, interrupts, crashes that tear unsynced files, and damage to the cache between processes; then a last process with no faults; non-trivial when a fault fired, the cache was damaged or clients interleaved; distinct by (fault sites, damage, switches)"
LANES = {"quick": {"interp": (1200, 100)}, "thorough": {"interp": (20000, 1500)}}
ASSUME = ["two small synthetic files stand in for the published ones and hash to the published checksums", "the cached files are not damaged while a load is running", "read errors inside the netCDF C library are not injected"]
NET = ["ConnectionError", "Timeout", "ReadTimeout", "HTTP500", "HTTP404", "HTTP503", "html", "flip", "flipdata", "flipdata", "cut", "cutdata", "cutdata", "short", "empty", "swap", "swap", "longer", "zeros", "zeros"]


def gen_fault(rng, nclients, nloads):
    c = rng.randrange(nclients)
    f = {"client": c, "load": rng.randrange(nloads[c]), "r": rng.randrange(1 << 20)}
    x = rng.random()
    if x < 0.4:
        f.update(on="connect", n=rng.randrange(2), do=rng.choice(NET))
    elif x < 0.5:
        f.update(on="chunk", n=rng.randrange(10), do=rng.choice(["broken", "ReadTimeout", "KeyboardInterrupt", "stall"]))
    elif x < 0.62:
        f.update(on="write", n=rng.randrange(10), do=rng.choice(["ENOSPC", "ENOSPC", "EIO", "KeyboardInterrupt"]))
    elif x < 0.67:
        f.update(on="open_w", n=rng.randrange(2), do=rng.choice(["EMFILE", "EROFS", "ENOSPC"]))
    elif x < 0.72:
        f.update(on=rng.choice(["open_r", "read"]), n=rng.randrange(6), do="EIO")
    elif x < 0.8:
        f.update(on="rename", n=rng.randrange(2), do=rng.choice(["EACCES", "EXDEV", "crash_after", "crash", "KeyboardInterrupt"]))
    else:
        f.update(on="any", n=rng.randrange(45), do=rng.choice(["crash", "crash", "crash", "KeyboardInterrupt", "MemoryError"]))
    return f


def make(rng, i, tier, lane):
    lives = []
    for k in range(rng.choice([1, 2, 2, 3, 4])):
        cl = [rng.choice([1, 1, 2]) for _ in range(rng.choice([1, 1, 1, 2]))]
        nf = rng.choice([0, 1, 1, 1, 2, 3])
        life = {"seed": rng.randrange(1 << 30), "clients": cl, "pswitch": rng.choice([0.1, 0.3, 0.6]) if len(cl) > 1 else 0.0, "faults": [gen_fault(rng, len(cl), cl) for _ in range(nf)]}
        if k and rng.random() < 0.4:
            life["damage"] = {"do": rng.choice(["delete", "flip", "flipdata", "cut", "cutdata", "zeros", "empty", "append", "swap"]), "which": rng.choice(["one", "one", "all"]), "r": rng.randrange(1 << 20), "mtime": rng.random() < 0.5, "dir": rng.random() < 0.3}
        lives.append(life)
    last = {"seed": rng.randrange(1 << 30), "clients": [2], "faults": []}
    if rng.random() < 0.5:
        last["damage"] = {"do": rng.choice(["flip", "flipdata", "cut", "cutdata", "zeros", "empty", "append", "swap", "delete"]), "which": rng.choice(["one", "all"]), "r": rng.randrange(1 << 20), "mtime": rng.random() < 0.5}
    return {"lives": lives, "last": last}


_REF = []


def reference(lab):
    """A first load on a working machine."""
    if not _REF:
        root = tempfile.mkdtemp(prefix="nosim-occa-")
        try:
            r = occa.run_life({"seed": 1, "clients": [1], "faults": []}, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        lab.st["references"] += 1
        _REF.append(r)
    return _REF[0]


def truth(rec):
    """None if the loaded arrays are the first time step of the genuine data."""
    g, S, T = thaw(rec["value"])
    for n, X in (("salt", S), ("theta", T)):
        a = occa.genuine()[n][1][0].transpose(2, 1, 0).astype(np.float64)
        if not np.array_equal(a, X, equal_nan=True):
            return "%s is not the published data" % n
    return None


def judge(case, lab):
    ref = reference(lab)
    if ref.get("error"):
        raise RuntimeError(ref["error"])
    r0 = ref["out"][0][0]
    if r0["status"] != "ok":
        return [V("no-faults-no-data", "a first load with nothing wrong raised %s: %s" % (r0["exc"], r0["msg"]))]
    t = truth(r0)
    if t:
        return [V("wrong-data", "a first load with nothing wrong: %s" % t)]
    if r0.get("open"):
        return [V("left-open", "after a load these stay open: %s" % r0["open"])]
    vs, hist = [], []
    root = tempfile.mkdtemp(prefix="nosim-occa-")
    intact = False
    dam = 0
    sw = 0
    try:
        lives = copy.deepcopy(case["lives"]) + [copy.deepcopy(case["last"])]
        for k, life in enumerate(lives):
            if life.get("damage"):
                n = occa.damage(root, life["damage"])
                if n:
                    intact = False
                    dam += 1
                    lab.st["fault:cache_" + life["damage"]["do"]] += 1
            res = occa.run_life(life, root)
            lab.st["runs"] += 1
            if res.get("error"):
                if "no answer" in res["error"]:
                    return [V("hang", "process %d: %s" % (k, res["error"]))]
                raise RuntimeError(res["error"])
            lab.st["ops"] += sum(len(c) for c in res["out"])
            lab.st["steps"] += res["events"]
            lab.st["switches"] += res["switches"]
            lab.simtime += res["simtime"]
            for f in res["fired"]:
                lab.st["fault:%s" % f[2]] += 1
                lab.fault_sites["%s@%s" % (f[2], f[3])] += 1
            hist.append(res["trace"])
            sw += res["switches"]
            anyfault = bool(res["fired"])
            firstok = False
            for c, recs in enumerate(res["out"]):
                for o, rec in enumerate(recs):
                    name = "process %d client %d load %d" % (k, c, o)
                    hit = [f for f in rec["fired"] if f[2] != "stall"]
                    if hit:
                        name += " (with %s)" % [(f[2], f[3], f[4]) for f in hit]
                    if rec["status"] == "ok":
                        d = world.diff(rec["value"], r0["value"], "result", False)
                        if d:
                            vs.append(V("wrong-data", "%s returned data that are not the published ones: %s" % (name, d)))
                        if any(f[2] == "KeyboardInterrupt" for f in hit):
                            vs.append(V("swallowed", "%s returned" % name))
                        if intact and rec["reqs"]:
                            vs.append(V("downloads-again", "%s made requests %s although the cache was intact" % (name, [q[2] for q in rec["reqs"]])))
                        if rec.get("open"):
                            vs.append(V("left-open", "%s left open %s" % (name, rec["open"])))
                        if len(recs) and len(life["clients"]) == 1:
                            intact = True
                    else:
                        if any(f[2] == "KeyboardInterrupt" for f in hit) and not rec["ki"]:
                            vs.append(V("swallowed", "%s turned into %s: %s" % (name, rec["exc"], rec["msg"][:100])))
                        if not hit and not (anyfault and len(life["clients"]) > 1):
                            vs.append(V("not-recovered", "%s, nothing being wrong any more, raised %s: %s" % (name, rec["exc"], rec["msg"])))
                        if rec.get("open"):
                            vs.append(V("left-open", "%s failed and left open %s" % (name, rec["open"])))
            if res["crashed"]:
                intact = False
            elif all(x["status"] == "ok" for c in res["out"] for x in c) and all(res["out"]):
                intact = True
            if res["escaped"]:
                vs.append(V("escaped", "process %d tried to write %s" % (k, res["escaped"][:2])))
            if vs:
                break
            ok = "".join("k" if x["status"] == "ok" else "x" for c in res["out"] for x in c)
            hist.append(ok)
            lab.st["probe:lives_crashed" if res["crashed"] else "probe:lives_ended"] += 1
    finally:
        shutil.rmtree(root, ignore_errors=True)
    tr = repr(hist)
    lab.traces.add((tr, dam, sw))
    if dam or sw or any(l["faults"] for l in lives):
        case["_nontrivial"] = repr((tr, [l.get("damage") for l in lives]))
    return vs


def shrink(case):
    for i in range(len(case["lives"])):
        c = copy.deepcopy(case)
        del c["lives"][i]
        yield c
    for where in ["last"] + list(range(len(case["lives"]))):
        l = case["last"] if where == "last" else case["lives"][where]

        def put(c, x):
            if where == "last":
                c["last"] = x
            else:
                c["lives"][where] = x
            return c

        for j in range(len(l["faults"])):
            x = copy.deepcopy(l)
            del x["faults"][j]
            yield put(copy.deepcopy(case), x)
        if l.get("damage"):
            x = copy.deepcopy(l)
            del x["damage"]
            yield put(copy.deepcopy(case), x)
        if len(l["clients"]) > 1:
            x = copy.deepcopy(l)
            x["clients"] = x["clients"][:1]
            x["faults"] = [f for f in x["faults"] if f["client"] == 0]
            yield put(copy.deepcopy(case), x)
        if l["clients"][0] > 1:
            x = copy.deepcopy(l)
            x["clients"][0] = 1
            x["faults"] = [f for f in x["faults"] if not (f["client"] == 0 and f["load"] == 1)]
            yield put(copy.deepcopy(case), x)
