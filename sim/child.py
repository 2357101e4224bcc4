"""Runs one scenario in a freshly forked process and reports what happened."""
import gc
import importlib
import os
import random
import pickle
import resource
import select
import signal
import struct
import sys
import time
import traceback
import tracemalloc
import warnings
import weakref

import numpy as np

from . import core, world

_now = time.monotonic  # real (captured before the clock seam when possible)


class Store:
    """World objects of a scenario, by name."""

    def __init__(self, descs):
        self.descs = descs
        self.objs = {}

    def get(self, name):
        if name not in self.objs:
            self.objs[name] = world.build_obj(self.descs[name], self.get)
        return self.objs[name]

    def build(self):
        for n in sorted(self.descs):
            self.get(n)


def resolve(v, store):
    if isinstance(v, dict):
        if "$" in v:
            o = store.get(v["$"])
            if "i" in v:
                o = o[v["i"]]
            if "at" in v:  # element / sub-array of an array
                o = o[tuple(v["at"])]
            return o
        if "$t" in v:
            return tuple(resolve(x, store) for x in v["$t"])
        if "$inf" in v:
            return np.inf
        if "$nan" in v:
            return np.nan
        if "$f8" in v:
            return np.float64(v["$f8"])
        if "$i8" in v:
            return np.int64(v["$i8"])
        return {k: resolve(x, store) for k, x in v.items()}
    if isinstance(v, list):
        return [resolve(x, store) for x in v]
    return v


def refs_in(v, out):
    if isinstance(v, dict):
        if "$" in v:
            out.add(v["$"])
        for x in v.values():
            refs_in(x, out)
    elif isinstance(v, list):
        for x in v:
            refs_in(x, out)
    return out


def lookup(path):
    m, f = path.split(":")
    o = importlib.import_module(m)
    for p in f.split("."):
        o = getattr(o, p)
    return o


def perform(op, args, kw, store):
    fn = op["fn"]
    if not fn.startswith("@"):
        return lookup(fn)(*args, **kw)
    if fn == "@edit":
        return do_edit(op, store)
    if fn == "@eosval":  # a function from a factory, applied to values
        f = lookup(op["factory"])(*args, **kw)
        return [f(*v) for v in resolve(op["vals"], store)]
    if fn == "@vecval":
        t = importlib.import_module("neutralocean.eos.tools")
        f = t.vectorize_eos(lookup(op["factory"])(*args, **kw))
        return [f(*v) for v in resolve(op["vals"], store)]
    if fn == "@ppval":
        f = lookup("neutralocean.ppinterp:make_pp")(**kw)
        return f(*args)
    if fn == "@stabilize":  # on private copies, which are the result
        import copy

        S, T = (x.copy(deep=True) if world.is_xr(x) else x.copy(order="K") for x in args[:2])
        lookup("neutralocean.stability:stabilize_ST")(S, T, *args[2:], **kw)
        return S, T
    if fn == "@stabilize_inplace":
        lookup("neutralocean.stability:stabilize_ST")(*args, **kw)
        return None
    if fn == "@seq":  # p = surface from one call feeds another (a user's pipeline)
        r = lookup(op["first"])(*args, **kw)
        return r
    if fn == "@fill":  # many functions from the factories, as a long session makes
        return do_fill(op)
    if fn == "@gc":
        gc.collect()
        return None
    if fn == "@loop":
        r = None
        for _ in range(op["n"]):
            r = lookup(op["call"])(*args, **kw)
        return r
    if fn == "@wetbfs":
        m = importlib.import_module("neutralocean.bfs")
        s, t, p = (np.array(x) for x in args[:3])
        q = getattr(m, op["call"])(s, t, p, *args[3:], **kw)
        return q, s, t, p
    raise KeyError(fn)


def do_fill(op):
    t = importlib.import_module("neutralocean.eos.tools")
    vs = importlib.import_module("neutralocean.surface._vertsolve")
    pp = lookup("neutralocean.ppinterp:make_pp")
    rng = random.Random(op["seed"])
    for i in range(op["n"]):
        e = rng.choice(["gsw", "jmd95", "jmdfwg06"])
        g, r = round(9.7 + 0.01 * rng.randrange(20), 2), 1000.0 + rng.randrange(50)
        k = rng.randrange(6)
        if k < 3:
            f = [t.make_eos, t.make_eos_s_t, t.make_eos_p][k](e, g, r)
        elif k == 3:
            t.vectorize_eos(t.make_eos(e, g, r))
        elif k == 4:
            vs._make_vertsolve(t.make_eos(e, g, r), pp("linear", kind="1", out="coeffs", nans=False), rng.choice(["omega", "potential", "anomaly"]))
        else:
            pp(rng.choice(["linear", "pchip"]), kind=rng.choice(["1", "u"]), out=rng.choice(["coeffs", "interp"]))
    return None


def do_edit(op, store):
    o = store.get(op["obj"])
    e = op["edit"]
    d = store.descs[op["obj"]]
    if d["k"] == "ocean":
        S, T, P = o
        S, T, P = (x.values if world.is_xr(x) else x for x in (S, T, P))
        v = d.get("vert", S.ndim - 1)
        Sv, Tv = (np.moveaxis(x, v, -1) for x in (S, T))
        Pv = np.moveaxis(P, v, -1) if P.ndim == S.ndim else P
        if e["what"] == "lose":
            world.lose(Sv, Tv, Pv, e)
        else:
            world.apply_edit_arrays(Sv, Tv, Pv, e)
    elif e.get("what") == "scale":
        world.apply_edit_generic(o, d, e)
    elif d["k"] == "rand":
        for i in e["casts"]:
            o.reshape(-1)[i] = np.nan  # a value of a map
        for i in e.get("rows", []):
            o.reshape(-1, o.shape[-1])[i] = np.nan
        for i, k in e.get("trunc", []):
            o.reshape(-1, o.shape[-1])[i, k:] = np.nan
    elif d["k"] == "grid":
        world.apply_edit_grid(o, e)
    elif d["k"] == "surf" and e.get("what") == "lose":
        x = o.values if world.is_xr(o) else o
        for i in e["casts"]:
            x[np.unravel_index(i, x.shape)] = np.nan
    elif d["k"] == "surf":
        if world.is_xr(o):
            o.values[...] += e["f"]
        else:
            o += e["f"]
    return None


def _poison_result(r):
    for a in world.arrays_in(r):
        if a.flags.writeable and a.size:
            if a.dtype.kind == "f":
                a[...] = -12345.678
            elif a.dtype.kind in "iu":
                a[...] = 0
            elif a.dtype.kind == "b":
                a[...] = ~a
    for c in world.containers_in(r):
        if isinstance(c, dict):
            for k in list(c):
                if not isinstance(c[k], np.ndarray):
                    c[k] = "poisoned"
        elif isinstance(c, list):
            for i in range(len(c)):
                c[i] = "poisoned"


def share(a, b):
    if a.size == 0 or b.size == 0:
        return False
    if not np.may_share_memory(a, b):
        return False
    try:
        return bool(np.shares_memory(a, b, max_work=100000))
    except Exception:
        return bool(np.may_share_memory(a, b))


# ------------------------------------------------------------------ ambient state
def ambient():
    import random
    import decimal
    import builtins
    import locale
    import logging
    import resource
    import tempfile
    import threading
    import time

    import dask
    import numba
    import scipy.sparse.linalg as sla
    import xarray as xr

    st = np.random.get_state()
    return {
        "np.geterr": dict(np.geterr()),
        "np.errcall": repr(np.geterrcall()),
        "np.random": (st[0], st[1].tobytes(), st[2], st[3], st[4]),
        "random": random.getstate(),
        "warnings.filters": tuple(repr(f) for f in warnings.filters),
        "warnings.showwarning": id(warnings.showwarning),
        "sys.stdout": id(sys.stdout),
        "sys.stderr": id(sys.stderr),
        "sys.stdin": id(sys.stdin),
        "os.environ": tuple(sorted(os.environ.items())),
        "cwd": os.getcwd(),
        "np.printoptions": repr(sorted(np.get_printoptions().items(), key=str)),
        "recursionlimit": sys.getrecursionlimit(),
        "switchinterval": sys.getswitchinterval(),
        "signal.SIGINT": repr(signal.getsignal(signal.SIGINT)),
        "signal.SIGALRM": repr(signal.getsignal(signal.SIGALRM)),
        "decimal": repr(decimal.getcontext()),
        "locale": locale.setlocale(locale.LC_ALL),
        "dask.config": repr(sorted((k, repr(v)) for k, v in dask.config.config.items())),
        "xr.options": repr(sorted(xr.get_options().items(), key=str)),
        "threads": tuple(sorted(t.name for t in threading.enumerate() if not t.name.startswith("Dummy"))),
        "fds": tuple(sorted(os.listdir("/proc/self/fd"))),
        "gc": gc.isenabled(),
        "trace": repr(sys.gettrace()),
        "excepthook": id(sys.excepthook),
        "umask": _umask(),
        "sys.path": tuple(sys.path),
        "float_repr": sys.float_repr_style,
        "itimer": tuple(signal.getitimer(k) for k in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)),
        "signals": tuple(repr(signal.getsignal(k)) for k in sorted(signal.valid_signals())),
        "sigmask": tuple(sorted(signal.pthread_sigmask(signal.SIG_BLOCK, []))),
        "gc.threshold": gc.get_threshold(),
        "np.bufsize": np.getbufsize(),
        "logging": (logging.root.level, logging.root.manager.disable, tuple(map(repr, logging.root.handlers)), tuple(sorted((k, v.level, v.disabled) for k, v in logging.root.manager.loggerDict.items() if isinstance(v, logging.Logger) and k.startswith(("neutralocean", "py.warnings"))))),
        "warnings.api": (id(warnings.warn), id(warnings.formatwarning), id(warnings.simplefilter)),
        "builtins": tuple(id(getattr(builtins, k)) for k in ("print", "open", "input", "__import__", "range", "sum", "min", "max")),
        "time": tuple(id(getattr(time, k)) for k in ("time", "perf_counter", "monotonic", "process_time", "sleep")),
        "hooks": (id(sys.unraisablehook), id(sys.displayhook), id(threading.excepthook), repr(sys.getprofile()), repr(threading.gettrace())),
        "affinity": tuple(sorted(os.sched_getaffinity(0))),
        "rlimits": tuple(resource.getrlimit(k) for k in (resource.RLIMIT_AS, resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_DATA, resource.RLIMIT_CPU)),
        "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "numba": (getattr(numba.config, "DISABLE_JIT", 0), getattr(numba.config, "BOUNDSCHECK", None), getattr(numba.config, "NUMBA_DEBUG", 0)),
        "scipy.solver": _scipy_solver(sla),
        "tempdir": tempfile.tempdir,
        "intmax": sys.get_int_max_str_digits(),
        "tmp": None,
    }


def _scipy_solver(sla):
    try:
        m = sla._dsolve.linsolve
        return (getattr(m.useUmfpack, "u", not m.noScikit), m.noScikit)  # scipy fills this in at first use
    except AttributeError:
        return None


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def ambient_diff(a, b):
    out = []
    for k in a:
        if a[k] != b[k]:
            va, vb = str(a[k]), str(b[k])
            out.append("%s: %s -> %s" % (k, va[:80], vb[:80]))
    return out


def thread_ambient(sc):
    """Settings that belong to a thread."""
    spec = sc.get("ambient") or {}
    if "geterr" in spec:
        np.seterr(**spec["geterr"])
    if "decprec" in spec:
        import decimal

        decimal.getcontext().prec = spec["decprec"]


def set_ambient(spec):
    import random

    if not spec:
        return
    if "npseed" in spec:
        np.random.seed(spec["npseed"])
        random.seed(spec["npseed"])
    if "warn" in spec:
        warnings.simplefilter(spec["warn"])
    if "precision" in spec:
        np.set_printoptions(precision=spec["precision"])
    if "reclimit" in spec:
        sys.setrecursionlimit(spec["reclimit"])
    if "env" in spec:
        os.environ.update(spec["env"])
    if "xropt" in spec:
        import xarray as xr

        xr.set_options(**spec["xropt"])
    if "gc" in spec:
        gc.disable()
    if "cwd" in spec:
        os.chdir(spec["cwd"])
    if "burn" in spec:
        np.random.rand(spec["burn"])
        random.random()


# ------------------------------------------------------------------ executing
def fork_op(sim, c, op):
    """The process forks here; only this thread lives on in the child, which makes the call."""
    global RESULT_FD
    r, w = os.pipe()
    mark = len(sim.stream.log)
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            RESULT_FD = w
            for x in sim.clients:
                if x is not c:
                    x.done, x.nops = True, len(x.program)
            c.out = []
            execute_op(sim, c, op)
            rec = c.out[0]
            rec["forktext"] = "".join(t for cc, o, t in sim.stream.log[mark:])
            send(("ok", rec))
        except BaseException as e:
            send(("err", "".join(traceback.format_exception(e))[-3000:]))
        finally:
            os._exit(0)
    os.close(w)
    data, end = b"", _now() + 45
    try:
        while _now() < end:
            rd, _, _ = select.select([r], [], [], 1.0)
            if rd:
                b = os.read(r, 1 << 20)
                if not b:
                    break
                data += b
    finally:
        os.close(r)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    if len(data) < 8:
        rec = {"status": "fatal", "fatal": ("hang", "the forked process gave no answer")}
    else:
        st, rec = pickle.loads(data[8:])
        if st != "ok":
            raise RuntimeError(rec)
        if rec.get("fatal"):
            rec = {"status": "fatal", "fatal": rec["fatal"]}
    rec["fired"] = []
    rec["op"] = c.nops
    c.out.append(rec)


def leak_refs(args, kw, r, fresh):
    """Weak references to what the caller passed (if made for this call only) and received."""
    out, seen = [], set()

    def go(x, path, depth=0):
        if depth > 8 or id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, (dict, list, tuple)):
            for k, v in x.items() if isinstance(x, dict) else enumerate(x):
                go(v, "%s[%r]" % (path, k), depth + 1)
        elif isinstance(x, np.ndarray) or world.is_xr(x) or hasattr(x, "tocoo") or type(x).__module__.startswith("dask"):
            try:
                out.append((path, weakref.ref(x)))
            except TypeError:
                pass
            if world.is_xr(x) and isinstance(x.variable._data, np.ndarray):
                go(x.variable._data, path + ".data", depth + 1)

    if fresh:
        for i, x in enumerate(args):
            go(x, "argument %d" % i)
        for k, x in kw.items():
            go(x, "argument %s" % k)
    go(r, "result")
    return out


def kept_arrays():
    """Data arrays that can be reached from the library's own modules: (where, array)."""
    import types

    out, seen = [], set()
    todo = [(m, n) for n, m in list(sys.modules.items()) if n == "neutralocean" or n.startswith("neutralocean.")]
    todo = [(vars(m), n) for m, n in todo]
    lru = type(__import__("functools").lru_cache(lambda: 0))
    import collections
    import threading

    local = type(threading.local())
    while todo and len(seen) < 60000:
        x, path = todo.pop()
        if isinstance(x, (str, bytes, int, float, complex, type(None), types.ModuleType, types.CodeType)) or id(x) in seen:
            continue
        seen.add(id(x))
        nxt = ()
        if isinstance(x, np.ndarray) or world.is_xr(x) or hasattr(type(x), "tocoo"):
            out.append((path, x))
        elif isinstance(x, dict):
            nxt = [(v, "%s.%s" % (path, k) if isinstance(k, str) else path + "[...]") for k, v in list(x.items())] + [(k, path) for k in list(x)]
        elif isinstance(x, (list, tuple, set, frozenset, collections.deque)):
            nxt = [(v, path + "[...]") for v in list(x)]
        elif isinstance(x, types.FunctionType):
            if (x.__module__ or "").startswith("neutralocean"):
                nxt = [(y, path) for y in (x.__closure__, x.__defaults__, x.__kwdefaults__, x.__dict__) if y]
        elif isinstance(x, types.CellType):
            try:
                nxt = [(x.cell_contents, path)]
            except ValueError:
                pass
        elif isinstance(x, lru):
            nxt = [(y, path) for y in gc.get_referents(x)]
        elif isinstance(x, types.MethodType):
            nxt = [(x.__func__, path), (x.__self__, path)]
        elif isinstance(x, BaseException):
            nxt = [(y, path) for y in (x.__traceback__, x.__cause__, x.__context__, x.args, x.__dict__)]
        elif isinstance(x, types.TracebackType):
            nxt = [(x.tb_frame, path), (x.tb_next, path)]
        elif isinstance(x, types.FrameType):
            if x.f_code.co_filename.startswith(_root()):
                nxt = [(v, path) for v in x.f_locals.values()]
        elif isinstance(x, types.GeneratorType):
            nxt = [(x.gi_frame, path)]
        elif type(x) is local or isinstance(x, core.Kernel):
            nxt = [(x.__dict__, path)]
        elif isinstance(x, type):
            if (x.__module__ or "").startswith("neutralocean"):
                nxt = [(dict(vars(x)), path)]
        elif type(x).__module__ == "functools" or type(x).__name__ == "_lru_list_elem":
            nxt = [(y, path) for y in gc.get_referents(x)]
        elif (type(x).__module__ or "").startswith("neutralocean") or isinstance(x, local):
            nxt = [(y, path) for y in gc.get_referents(x) if not isinstance(y, type)]
            if hasattr(x, "__dict__"):
                nxt.append((x.__dict__, path))
        todo.extend(nxt)
    return out


def _root():
    from . import shim

    return shim.ROOT


KNOWN = []  # weak references to arrays found in the library earlier


def newly_kept():
    """Where the library keeps arrays that it did not keep before."""
    old = {id(y): y for y in (w() for w in KNOWN) if y is not None}
    out = []
    for path, x in kept_arrays():
        if id(x) not in old:
            try:
                KNOWN.append(weakref.ref(x))
            except TypeError:
                continue
            out.append(path)
    return out


def leak_check(sim, c):
    """After a call, when its caller has dropped everything: what is still there?"""
    gc.collect()
    rec = c.out[-1]
    n0 = len(c.wrefs)
    rec["held"] = [p for p, w in c.wrefs if w() is not None]
    c.wrefs = []
    rec["nrefs"] = n0
    rec["kept"] = newly_kept()
    n = b = 0
    from . import shim

    root = shim.ROOT
    for dom, size, tb, tot in tracemalloc._get_traces():
        if size < 64:  # numpy 2 leaks method names and keeps shape buffers
            continue
        for f in tb:  # innermost first: memory other libraries keep for themselves is theirs
            if f[0].startswith(root):
                n += 1
                b += size
                break
            if not any(x in f[0] for x in ("/numpy/", "/sim/shim.py", "functools", "collections", "copy.py", "weakref")):
                break
    rec["live"] = (n, b)


def execute_op(sim, c, op):
    store = sim.store
    if op["fn"] == "@fork":
        return fork_op(sim, c, op["op"])
    sc = sim.sc
    if op.get("fresh"):  # objects made for this call only, and freed after it
        keep = {n: o for n, o in store.objs.items() if sc.get("leak") and sc["objs"][n]["k"] in ("eos", "ueos", "zerofn", "binfn")}
        store = Store(sc["objs"])
        store.objs.update(keep)
    rec = {"op": c.nops, "client": c.cid, "b": sim.gsteps}
    # argument resolution is the user's code: no faults, steps or switches there
    core.CUR = None
    try:
        args = [resolve(v, store) for v in op.get("args", [])]
        kw = {k: resolve(v, store) for k, v in op.get("kw", {}).items()}
    finally:
        core.CUR = sim
    integ = sc.get("integrity")
    if integ and not op["fn"].startswith("@edit"):
        before = [world.freeze(x, True) for x in args], {k: world.freeze(v, True) for k, v in kw.items()}
        shells = [world.shell(x, "arg%d" % i) for i, x in enumerate(args)] + [world.shell(v, k) for k, v in kw.items()]
        if sc.get("observe"):
            own = {id(x) for x in store.objs.values()}
            sim.literals[c.cid] = [(n, x, fz, sh) for (n, x), fz, sh in zip([("arg%d" % i, x) for i, x in enumerate(args)] + list(kw.items()), before[0] + [before[1][k] for k in kw], shells) if sh and id(x) not in own]
    amb = ambient() if sc.get("ambient_check") else None
    out0 = sys.stdout
    try:
        r = perform(op, args, kw, store)
        rec["status"] = "ok"
    except BaseException as e:
        rec["status"] = "exc"
        rec["exc"] = type(e).__name__
        rec["excmod"] = type(e).__module__
        rec["msg"] = str(e)[:300] if not sc.get("leak") else ""  # the text may be the library's own object
        rec["injected"] = core.injected_in_chain(e)
        rec["ki"] = isinstance(e, KeyboardInterrupt)
        rec["direct"] = getattr(e, "_sim_injected", None) is not None
        if sc.get("tb", True):
            rec["tb"] = "".join(traceback.format_exception(e))[-1500:]
        if not sc.get("leak"):
            e.__traceback__ = None
        r = None
    # everything below is the harness: no faults, no switches
    if sc.get("observe"):
        sim.literals.pop(c.cid, None)
    steps = (c.lsteps, c.kcalls, dict(c.ecalls), c.writes)
    rec["lsteps"], rec["kcalls"], rec["ecalls"], rec["writes"] = steps
    rec["isteps"] = c.isteps
    rec["fired"] = list(c.fired)
    if c.sites is not None:
        rec["sites"], c.sites = c.sites, None
    if amb is not None:
        if sys.stdout is not out0 and any(f["kind"] == "stdout" and f.get("what") in ("swap", "none") for f in c.fired):
            amb["sys.stdout"] = id(sys.stdout)
        d = ambient_diff(amb, ambient())
        if d:
            rec["ambient"] = d
    if rec["status"] == "ok" and not sc.get("leak"):
        rec["value"] = world.freeze(r)
    if integ and not op["fn"].startswith("@edit") and op["fn"] != "@stabilize_inplace":
        bad = []
        for i, (x, y) in enumerate(zip(args, before[0])):
            d = world.diff(y, world.freeze(x, True), "arg%d" % i, False)
            if d:
                bad.append(d)
        for k, x in kw.items():
            d = world.diff(before[1][k], world.freeze(x, True), k, False)
            if d:
                bad.append(d)
        for n, x, sh in zip(["arg%d" % i for i in range(len(args))] + list(kw), args + list(kw.values()), shells):
            d = world.shell_diff(sh, world.shell(x, n))
            if d:
                bad.append(d)
        if bad:
            rec["mutated"] = bad
        if r is not None:
            ins = world.arrays_in([args, list(kw.values())])
            al = []
            for j, x in enumerate(world.arrays_in(r)):
                for y in ins:
                    if share(x, y):
                        al.append("result array %d shares memory with an argument" % j)
                        break
            cin = {id(x) for x in world.containers_in([args, kw])[2:]}
            if any(id(x) in cin for x in world.containers_in(r)):
                al.append("result contains one of the caller's own dicts or lists")
            attrs_in = {id(x.attrs) for x in args + list(kw.values()) if world.is_xr(x)}
            for x in (r if isinstance(r, (tuple, list)) else [r]):
                if world.is_xr(x) and id(x.attrs) in attrs_in:
                    al.append("result attrs are an argument's attrs")
            if al:
                rec["alias"] = al
    if sc.get("leak"):
        c.wrefs = leak_refs(args, kw, r, op.get("fresh"))
    if op.get("poison") and r is not None:
        _poison_result(r)
    if sc.get("snap"):
        rec["snap"] = {n: world.freeze(store.objs[n]) for n in sc["snap"]}
    if op.get("keep") and rec["status"] == "ok":
        store.objs[op["keep"]] = r
    rec["e"] = sim.gsteps
    c.out.append(rec)
    del r, args, kw


def watcher(sc, sim):
    if not sc.get("observe"):
        return None
    seen = {}
    lim = int(sc["observe"])  # visits of each line at which another thread looks

    def watch(sim, c, code, line):
        n = seen.get((code, line), 0)
        if n < lim and len(sim.obs) < 5:
            seen[(code, line)] = n + 1
            sim.nobs += 1
            for n in sim.watched:
                d = world.diff(sim.initial[n], world.freeze(sim.store.objs[n], True), n, False) or world.shell_diff(sim.shells[n], world.shell(sim.store.objs[n], n))
                if d:
                    sim.obs.append("at %s:%d (step %d): %s" % (code.co_name, line, sim.gsteps, d))

            for lits in list(sim.literals.values()):
                for n, x, fz, sh in lits:
                    d = world.diff(fz, world.freeze(x, True), n, False) or world.shell_diff(sh, world.shell(x, n))
                    if d:
                        sim.obs.append("at %s:%d (step %d): %s" % (code.co_name, line, sim.gsteps, d))

    return watch


RESULT_FD = None


def run(sc):
    """Execute scenario sc in this (disposable) process."""
    set_ambient(sc.get("ambient"))
    store = Store(sc["objs"])
    store.build()
    sim = core.Sim(sc, execute_op)
    sim.store = store
    sim.thread_init = thread_ambient
    sim.obs = []
    sim.nobs = 0
    edited = {op["obj"] for p in sc["clients"] for op in p if op["fn"] == "@edit"}
    edited |= {op["args"][0]["$"] for p in sc["clients"] for op in p if op["fn"] == "@stabilize_inplace"}
    sim.watched = [n for n in sorted(sc["objs"]) if n not in edited]
    sim.initial = {n: world.freeze(store.objs[n], True) for n in sim.watched} if sc.get("observe") or sc.get("final_check") else {}
    sim.shells = {n: world.shell(store.objs[n], n) for n in sim.initial}
    sim.literals = {}
    sim.watch = watcher(sc, sim)
    sim.stream = core.SimStream("main")
    sim.alt_stream = core.SimStream("alt")
    if sc.get("gran") == "instr":
        core.set_granularity(True)
    if any(d.get("layout") == "dask" for d in sc["objs"].values()) or sc.get("dask"):
        from . import dasksim

        dasksim.install(sc.get("dask", {}))
    core.STRAY.log.clear()
    sim.err_stream = core.SimStream("err")
    sys.stdout = sim.stream if sc.get("stdout") != "none" else None
    if sc.get("stdout") == "alt":
        sys.stdout = sim.alt_stream
    real_dunder, real_err = sys.__stdout__, sys.stderr
    sys.__stdout__ = core.STRAY
    if sc.get("stderr"):
        sys.stderr = sim.err_stream
    try:
        with warnings.catch_warnings():
            if "warn" not in (sc.get("ambient") or {}):
                warnings.simplefilter("ignore")
            if sc.get("leak"):
                # numpy keeps freed small buffers for itself: let it have them before the count starts
                hoard = [np.empty(n, "u1").reshape((1,) * d + (n,)) for n in range(1, 1100) for d in range(6) for _ in (1, 2)]
                hoard += [np.zeros(n, "u1") for n in range(1, 1100) for _ in range(8)]
                del hoard
                gc.collect()
                gc.freeze()
                tracemalloc.start(1)
            for op in sc.get("prelude", []):  # history of the process before the clients start
                try:
                    perform(op, [resolve(v, store) for v in op.get("args", [])], {k: resolve(v, store) for k, v in op.get("kw", {}).items()}, store)
                except Exception:
                    pass
            a0 = ambient() if sc.get("ambient_check") else None
            if sc.get("leak"):
                newly_kept()
                sim.after_op = leak_check
            sim.run()
            if a0 is not None:
                a1 = ambient()
                if sc.get("faults"):
                    a1["sys.stdout"] = a0["sys.stdout"]
                sim.ambient_end = ambient_diff(a0, a1)
    finally:
        sys.stdout = real_dunder
        sys.__stdout__ = real_dunder
        sys.stderr = real_err
    return report(sim)


def report(sim, fatal=None):
    sc = sim.sc
    res = {
        "clients": [c.out for c in sim.clients],
        "gsteps": sim.gsteps,
        "work": sim.work,
        "switches": sim.switches,
        "trace": sim.trace.hexdigest()[:16],
        "fired": sim.fired,
        "events": sim.events,
        "stalls": sim.stalls,
        "simtime": sim.now - float(sc.get("clock", {}).get("start", 1_600_000_000.0)),
        "sites": sim.switch_sites[:200],
        "obs": sim.obs,
        "nobs": sim.nobs,
        "nested": [x for x in sim.nested if x],
        "npoison": sim.npoison,
        "nreads": sim.nreads,
        "stray": [t for t in core.STRAY.log],
        "log": [t for t in sim.stream.log],
        "altlog": [t for t in sim.alt_stream.log],
        "errlog": [t for t in sim.err_stream.log],
        "fatal": fatal,
        "ambient_end": getattr(sim, "ambient_end", None),
    }
    if sim.initial and sc.get("final_check"):
        bad = []
        for n in sim.watched:
            d = world.diff(sim.initial[n], world.freeze(sim.store.objs[n], True), n, False)
            if d:
                bad.append(d)
        res["final_mut"] = bad
    if sc.get("dump"):
        res["dump"] = {n: world.freeze(sim.store.objs[n]) for n in sc["dump"]}
    return res


def emergency(sim, kind, msg):
    """Deadlock or runaway: report what there is and end this process."""
    try:
        res = report(sim, (kind, msg))
    except BaseException:
        res = {"fatal": (kind, msg), "clients": [c.out for c in sim.clients], "fired": sim.fired, "trace": sim.trace.hexdigest()[:16]}
    send(("ok", res))
    os._exit(0)


def send(obj):
    data = pickle.dumps(obj, protocol=4)
    buf = struct.pack("<Q", len(data)) + data
    mv = memoryview(buf)
    while mv:
        n = os.write(RESULT_FD, mv)
        mv = mv[n:]


class ChildTimeout(Exception):
    pass


class ChildDied(Exception):
    pass


def forked(fn, arg, timeout=120.0):
    """Run fn(arg) in a forked child; return its result."""
    global RESULT_FD
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            RESULT_FD = w
            try:
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                res = ("ok", fn(arg))
            except BaseException as e:
                res = ("err", "".join(traceback.format_exception(e))[-6000:])
            send(res)
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    need = None
    end = _now() + timeout
    try:
        while True:
            left = end - _now()
            if left <= 0:
                raise ChildTimeout("no answer within %g s" % timeout)
            rd, _, _ = select.select([r], [], [], left)
            if not rd:
                continue
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
            if need is None and len(data) >= 8:
                need = 8 + struct.unpack("<Q", data[:8])[0]
            if need is not None and len(data) >= need:
                break
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        _, status = os.waitpid(pid, 0)
    if need is None or len(data) < need:
        raise ChildDied("child ended without an answer, status %r" % status)
    kind, val = pickle.loads(data[8:need])
    if kind == "err":
        raise RuntimeError("harness error in child:\n" + val)
    return val


def simulate(sc, timeout=120.0):
    try:
        return forked(run, sc, timeout)
    except (ChildTimeout, ChildDied) as e:
        # confirm before calling it non-termination / a crash of the process
        try:
            return forked(run, sc, timeout * 2)
        except (ChildTimeout, ChildDied) as e2:
            return {"fatal": ("timeout" if isinstance(e2, ChildTimeout) else "died", str(e2)), "clients": [], "fired": [], "trace": "", "gsteps": 0, "work": 0, "switches": 0, "simtime": 0.0, "stalls": [], "sites": [], "obs": [], "nobs": 0, "npoison": 0, "log": [], "altlog": [], "stray": [], "events": []}
