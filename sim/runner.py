"""Runs a property's seeded search, minimises and replays what it finds, writes evidence."""
import collections
import copy
import importlib
import json
import os
import pickle
import random
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
_now = time.monotonic
NW = int(os.environ.get("NOSIM_WORKERS", "8"))


def load(prop):
    return importlib.import_module("sim.props." + prop.lower())


def seed_of(vseed, prop, lane, i):
    return "%s/%s/%s/%d" % (vseed, prop, lane, i)


def make_case(mod, prop, lane, vseed, tier, i):
    rng = random.Random(seed_of(vseed, prop, lane, i))
    return mod.make(rng, i, tier, lane)


def jdump(x):
    return json.dumps(x, ensure_ascii=False)


def minimise(mod, lab, case, cls, limit_s, max_tries=400):
    """Greedy shrinking while the same class of violation persists."""
    end = _now() + limit_s
    tries = 0
    best = case
    improved = True
    while improved and _now() < end and tries < max_tries:
        improved = False
        for cand in mod.shrink(best):
            if _now() > end or tries >= max_tries:
                break
            tries += 1
            cand = json.loads(jdump(cand))
            try:
                vs = mod.judge(cand, lab)
            except Exception:
                continue
            if any(v["class"] == cls for v in vs):
                best = cand
                improved = True
                break
    return best, tries


def worker(w, nw, prop, lane, vseed, tier, total, deadline, outfd, stop_at_first=True):
    from . import lab as labm

    mod = load(prop)
    lab = labm.Lab()
    out = {"cases": 0, "errors": [], "found": None, "samples": [], "fams": collections.Counter(), "nontrivial": 0, "keys": set()}
    i = w
    try:
        while i < total:
            if _now() > deadline:
                out["cut"] = True
                break
            case = json.loads(jdump(make_case(mod, prop, lane, vseed, tier, i)))
            before = lab.st.copy()
            try:
                vs = mod.judge(case, lab)
            except Exception:
                out["errors"].append("case %d: %s" % (i, traceback.format_exc()[-1500:]))
                if len(out["errors"]) > 5:
                    break
                i += nw
                continue
            out["cases"] += 1
            nt = case.pop("_nontrivial", None)
            if nt:
                out["nontrivial"] += 1
                out["keys"].add(nt)
            for f in case_fams(case):
                out["fams"][f] += 1
            if w == 0 and len(out["samples"]) < 2 and nt:
                out["samples"].append(brief(case))
            known = getattr(mod, "KNOWN", None)
            vs = [v for v in vs if not (known and known(v, case, out))]
            if vs:
                out["found"] = (i, case, vs)
                break
            i += nw
    except BaseException:
        out["errors"].append(traceback.format_exc()[-1500:])
    out["lab"] = (lab.st, lab.traces, lab.sites, lab.fault_sites, lab.simtime)
    data = pickle.dumps(out)
    with os.fdopen(outfd, "wb") as f:
        f.write(data)
    os._exit(0)


def case_fams(case):
    out = []
    for sc in case.get("scs", [case.get("sc")]):
        if not sc:
            continue
        for c in sc.get("clients", []):
            for op in c:
                out.append(op.get("fam", op.get("fn", "?")))
    return out


def brief(case):
    s = jdump(case)
    return json.loads(s) if len(s) < 6000 else {"case_json_prefix": s[:4000]}


def run_lane(prop, lane, vseed, tier, total, wall):
    """Fork the workers; gather."""
    from . import core, shim

    t0 = _now()
    bad = shim.install(lane)
    if [b for b in bad if "xgcm" not in b[0]]:
        raise RuntimeError("could not import: %r" % (bad,))
    load(prop)
    ready = _now()
    deadline = ready + wall
    kids = []
    nw = min(NW, max(1, total))
    for w in range(nw):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for rr, _, _ in kids:
                pass
            worker(w, nw, prop, lane, vseed, tier, total, deadline, wr)
            os._exit(0)
        os.close(wr)
        kids.append((r, pid, w))
    outs = []
    # read all pipes; workers end by themselves (each case is bounded)
    import select

    bufs = {r: b"" for r, _, _ in kids}
    live = set(bufs)
    early = None
    while live:
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for r in rd:
            b = os.read(r, 1 << 20)
            if not b:
                live.discard(r)
                continue
            bufs[r] += b
        if _now() > deadline + 400:
            break
    for r, pid, w in kids:
        if r in live:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.close(r)
        os.waitpid(pid, 0)
        if bufs[r]:
            outs.append(pickle.loads(bufs[r]))
        else:
            outs.append({"cases": 0, "errors": ["worker %d gave no answer" % w], "found": None, "samples": [], "fams": collections.Counter(), "nontrivial": 0, "keys": set(), "lab": None})
    return outs, ready - t0


def lane_main(argv):
    """Subprocess: one lane of one property; result pickled to a file."""
    prop, lane, vseed, tier, total, wall, path = argv
    outs, setup = run_lane(prop, lane, int(vseed), tier, int(total), float(wall))
    with open(path, "wb") as f:
        pickle.dump((outs, setup), f)


def minimise_main(argv):
    path, limit = argv
    rp = json.load(open(path))
    from . import lab as labm, shim

    shim.install(rp["lane"])
    mod = load(rp["property"])
    lab = labm.Lab()
    vs = mod.judge(copy.deepcopy(rp["case"]), lab)
    if not any(v["class"] == rp["violation"]["class"] for v in vs):
        print("NOT-REPRODUCED")
        return 3
    best, tries = minimise(mod, lab, rp["case"], rp["violation"]["class"], float(limit))
    vs = mod.judge(copy.deepcopy(best), lab)
    vs = [v for v in vs if v["class"] == rp["violation"]["class"]]
    if vs:
        best.pop("_nontrivial", None)
        rp["minimised_from_bytes"] = len(jdump(rp["case"]))
        rp["case"] = best
        rp["violation"] = vs[0]
        rp["minimise_tries"] = tries
        with open(path, "w") as f:
            json.dump(rp, f, indent=1, ensure_ascii=False, sort_keys=True)
    print("MINIMISED")
    return 0


def replay_main(path):
    rp = json.load(open(path))
    from . import lab as labm, shim

    shim.install(rp["lane"])
    mod = load(rp["property"])
    lab = labm.Lab()
    vs = mod.judge(rp["case"], lab)
    for v in vs:
        print("%s: %s" % (v["class"], v["msg"]))
    if any(v["class"] == rp["violation"]["class"] for v in vs):
        same = any(v == rp["violation"] for v in vs)
        print("REPRODUCED property=%s class=%s %s" % (rp["property"], rp["violation"]["class"], "exactly" if same else "(same class, other detail)"))
        print("VIOLATION property=%s replay=%s" % (rp["property"], path))
        return 1
    print("NOT-REPRODUCED")
    return 0


def sub(args, timeout, env=None):
    e = dict(os.environ)
    e.update({"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "1"})
    e.update(env or {})
    return subprocess.run([PY, os.path.join(HERE, "check.py")] + args, env=e, cwd=HERE, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def check(prop, tier, vseed):
    import tempfile

    t0 = _now()
    mod = load(prop)
    evdir = os.path.join(HERE, "evidence")
    rpdir = os.path.join(HERE, "replays")
    os.makedirs(evdir, exist_ok=True)
    os.makedirs(rpdir, exist_ok=True)
    tot = collections.Counter()
    traces, keys = set(), set()
    sites, fsites, fams = collections.Counter(), collections.Counter(), collections.Counter()
    simtime = 0.0
    errors, found, samples = [], [], []
    cases = nontrivial = 0
    cut = False
    laneinfo = {}
    for lane, (total, wall) in mod.LANES[tier].items():
        fd, path = tempfile.mkstemp(prefix="nosim-")
        os.close(fd)
        try:
            p = sub(["--lane", prop, lane, str(vseed), tier, str(total), str(wall), path], wall + 700, {"PYTHONHASHSEED": str(vseed % 1000)})
            if p.returncode != 0:
                errors.append("lane %s failed: %s" % (lane, p.stdout[-3000:]))
                continue
            outs, setup = pickle.load(open(path, "rb"))
        finally:
            try:
                os.unlink(path)
            except FileNotFoundError:
                pass
        n = 0
        for o in outs:
            n += o["cases"]
            nontrivial += o["nontrivial"]
            keys |= o["keys"]
            cut = cut or bool(o.get("cut"))
            errors += o["errors"]
            samples += o["samples"]
            fams.update(o["fams"])
            if o["lab"]:
                tot.update(o["lab"][0])
                traces |= o["lab"][1]
                sites.update(o["lab"][2])
                fsites.update(o["lab"][3])
                simtime += o["lab"][4]
            if o["found"]:
                found.append((lane,) + o["found"])
        cases += n
        laneinfo[lane] = {"cases": n, "planned": total, "setup_s": round(setup, 2)}
    found.sort(key=lambda f: (f[0], f[1]))
    confirmed = []
    unconfirmed = []
    for lane, i, case, vs in found[:4]:
        v = vs[0]
        path = os.path.join(rpdir, "%s-%s-seed%d-%s-%d.json" % (prop, tier, vseed, lane, i))
        rp = {"property": prop, "lane": lane, "seed": vseed, "index": i, "tier": tier, "violation": v, "case": case}
        with open(path, "w") as f:
            json.dump(rp, f, indent=1, ensure_ascii=False, sort_keys=True)
        keep = open(path).read()
        lim = getattr(mod, "MIN_S", 40)
        try:
            sub(["--minimise", path, str(lim)], lim + 240)
            ok = sub(["--replay", path], 400).returncode == 1
            if not ok:
                open(path, "w").write(keep)
                ok = any(sub(["--replay", path], 400).returncode == 1 for _ in range(3))
        except subprocess.TimeoutExpired:
            open(path, "w").write(keep)
            ok = sub(["--replay", path], 900).returncode == 1
        if ok:
            confirmed.append((path, json.load(open(path))["violation"]))
            break
        unconfirmed.append(path)
    wall = _now() - t0
    hours = max(wall, 1e-9) / 3600
    faults = {k[6:]: v for k, v in sorted(tot.items()) if k.startswith("fault:")}
    ev = {
        "property": prop,
        "tier": tier,
        "seed": vseed,
        "level": "exploration",
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": samples[:2],
            "simulated_runs": tot["runs"],
            "reference_runs": tot["references"],
            "runs_per_hour": int(tot["runs"] / hours),
            "seeds_per_hour": int(cases / hours),
            "library_calls_simulated": tot["ops"],
            "calls_by_family": dict(sorted(fams.items())),
            "steps": tot["steps"],
            "simulated_time_s": round(simtime, 3),
            "faults_fired": faults,
            "fault_sites": dict(fsites.most_common(40)),
            "context_switches": tot["switches"],
            "distinct_switch_sites": len(sites),
            "distinct_executions": len(traces),
            "distinct_executions_measure": "distinct (hash of all switches and faults with their sites, outcome pattern, number of steps)",
            "probes": {k: v for k, v in sorted(tot.items()) if k.startswith("probe:")},
            "other_counts": {k: v for k, v in sorted(tot.items()) if not k.startswith(("fault:", "probe:"))},
            "lanes": laneinfo,
            "wall_limit_reached": cut,
            "real_code": "all Python code of /repo/neutralocean; numpy, scipy, xarray, dask graphs; lane 'compiled' also numba-compiled kernels",
            "stubbed": "lane 'interp': numba compilation (same source, interpreted, atomic); clock; thread scheduling; stdout; dask scheduler; storage reads; network and download cache (C12)",
        },
        "assumptions": getattr(mod, "ASSUME", []),
        "wall_s": round(wall, 2),
        "violations": len(confirmed),
    }
    if unconfirmed:
        ev["coverage"]["unconfirmed"] = unconfirmed
    if errors:
        ev["coverage"]["harness_errors"] = errors[:5]
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, sort_keys=True)
    print("%s %s seed=%d: %d cases, %d simulated runs, %d references, %d distinct executions, faults %s, %.1f s" % (prop, tier, vseed, cases, tot["runs"], tot["references"], len(traces), sum(faults.values()), wall))
    if confirmed:
        path, v = confirmed[0]
        print("%s: %s" % (v["class"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for line in getattr(mod, "known_lines", lambda: [])():
        print(line)
    if errors:
        print("HARNESS ERROR\n" + "\n".join(errors[:3]))
        return 2
    if unconfirmed:
        print("HARNESS ERROR: a violation was seen but its replay did not reproduce it: %s" % unconfirmed)
        return 2
    if cases == 0:
        print("HARNESS ERROR: no case ran")
        return 2
    return 0
