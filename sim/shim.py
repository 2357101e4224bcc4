"""Puts every source of nondeterminism neutralocean can meet behind the simulator.

`install(lane)` must run before neutralocean is imported.
lane "interp":   numba's compilers are replaced by an interpreter of the same source
lane "compiled": numba's real compiler is used; every other seam is the same
"""
import functools
import importlib
import itertools
import os
import pkgutil
import sys
import threading
import time

import numpy as np

from . import core

REPO = os.environ.get("NOSIM_REPO", "/repo")
ROOT = os.path.join(REPO, "neutralocean") + os.sep
LANE = None

# ------------------------------------------------------------------ numba shim


def _is_sig(x):
    return not callable(x) or isinstance(x, (str, list, tuple)) or type(x).__module__.startswith("numba")


def fake_jit(*args, **kw):
    def deco(fn):
        return core.Kernel(fn, nogil=bool(kw.get("nogil")))

    if args and callable(args[0]) and hasattr(args[0], "__code__"):
        return deco(args[0])
    return deco


def _elem(x):
    return x


class VecKernel(core.Kernel):
    """numba.vectorize / numpy.vectorize of a scalar function, as a ufunc."""

    def __init__(self, fn):
        super().__init__(fn)
        inner = core.Kernel(fn)
        self.inner = inner

        def run(*a, **k):
            out = k.pop("out", None)
            b = np.broadcast_arrays(*[np.asarray(x) for x in a])
            shape = b[0].shape if b else ()
            flats = [x.reshape(-1) for x in b]
            n = flats[0].size
            res = None
            vals = [fn(*[f[i] for f in flats]) for i in range(n)]
            dt = np.result_type(*[np.asarray(v).dtype for v in vals]) if vals else np.float64
            res = np.array(vals, dtype=dt).reshape(shape)
            if out is not None:
                o = out[0] if isinstance(out, tuple) else out
                o[...] = res
                return o
            return res if shape else res[()]

        core.KERNEL_CODES.add(run.__code__)
        self.py_func = run
        self.nin = fn.__code__.co_argcount
        self.nout = 1


def fake_vectorize(*args, **kw):
    if args and callable(args[0]) and hasattr(args[0], "__code__"):
        return VecKernel(args[0])

    def deco(fn):
        return VecKernel(fn)

    return deco


def _parse_layout(layout):
    left, right = layout.replace(" ", "").split("->")

    def side(s):
        out, depth, cur = [], 0, ""
        for ch in s:
            if ch == "(":
                depth += 1
                cur = ""
            elif ch == ")":
                depth -= 1
                out.append(tuple(x for x in cur.split(",") if x))
            elif depth:
                cur += ch
        return out

    return side(left), side(right)


class GUKernel(core.Kernel):
    def __init__(self, fn, sigs, layout):
        super().__init__(fn)
        import numba

        ins, outs = _parse_layout(layout)
        sig = sigs[0] if sigs else None
        kinds = []
        nargs = len(ins) + len(outs)
        if isinstance(sig, (tuple, list)):
            types_ = list(sig)
        elif sig is not None and hasattr(sig, "args"):
            types_ = list(sig.args)
        else:
            types_ = [None] * nargs
        for t in types_:
            if t is None:
                kinds.append((None, True))
            elif isinstance(t, numba.types.Array):
                kinds.append((np.dtype(str(t.dtype)), True))
            else:
                kinds.append((np.dtype(str(t)), False))
        self.nin, self.nout = len(ins), len(outs)

        def run(*a, **k):
            outgiven = k.pop("out", None)
            if len(a) == len(ins) + len(outs):
                outgiven = tuple(a[len(ins):])
                a = a[: len(ins)]
            if outgiven is not None and not isinstance(outgiven, tuple):
                outgiven = (outgiven,)
            if len(a) != len(ins):
                raise TypeError("expected %d arguments, got %d" % (len(ins), len(a)))
            arrs = [np.asarray(x) for x in a]
            arrs = [x.astype(kd[0], copy=False) if kd[0] is not None else x for x, kd in zip(arrs, kinds)]
            dims = {}
            loops = []
            for x, d in zip(arrs, ins):
                if x.ndim < len(d):
                    raise ValueError("input has too few dimensions")
                core_shape = x.shape[x.ndim - len(d):]
                for nm, sz in zip(d, core_shape):
                    if dims.get(nm, sz) != sz:
                        raise ValueError("mismatch in core dimension %s" % nm)
                    dims[nm] = sz
                loops.append(x.shape[: x.ndim - len(d)])
            loop = np.broadcast_shapes(*loops) if loops else ()
            barrs = [np.broadcast_to(x, loop + x.shape[x.ndim - len(d):]) for x, d in zip(arrs, ins)]
            res = []
            for j, d in enumerate(outs):
                dt = kinds[len(ins) + j][0] or np.dtype(float)
                shp = loop + tuple(dims[nm] for nm in d)
                if outgiven is not None and outgiven[j] is not None:
                    res.append(outgiven[j])
                else:
                    o = _REAL_EMPTY(shp, dt)
                    poison(o)
                    res.append(o)
            for idx in np.ndindex(*loop):
                call = []
                for x, d, kd in zip(barrs, ins, kinds):
                    v = x[idx]
                    if not d and kd[1]:
                        v = np.asarray(v).reshape(1)
                    call.append(v)
                for o, d in zip(res, outs):
                    call.append(o[idx] if d else o[idx + (None,)] if o.ndim else o.reshape(1))
                fn(*call)
            res = [r if r.ndim else r[()] for r in res]
            return res[0] if len(res) == 1 else tuple(res)

        core.KERNEL_CODES.add(run.__code__)
        self.py_func = run


def fake_guvectorize(*args, **kw):
    args = list(args)
    if len(args) == 1 and isinstance(args[0], str):
        sigs, layout = [], args[0]
    else:
        sigs, layout = args[0], args[1]
    if not isinstance(sigs, (list,)):
        sigs = [sigs]

    def deco(fn):
        return GUKernel(fn, sigs, layout)

    return deco


def fake_prange(*a):
    r = range(*a)
    sim = core.CUR
    if sim is None or not sim.prange_seed:
        return r
    x = list(r)
    s = sim.prange_seed
    for i in range(len(x) - 1, 0, -1):
        s = (s * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        j = (s >> 33) % (i + 1)
        x[i], x[j] = x[j], x[i]
    return x


# ------------------------------------------------------------------ heap poison
_REAL_EMPTY = np.empty
_REAL_EMPTY_LIKE = np.empty_like
_POISON_F = [None, 0.0, 1.0, -7.25, 35.0, 1e30, np.nan, 1027.5]
_POISON_I = [None, 0, 1, -3, 7, 2, 5, 11]


def poison(a):
    sim = core.CUR
    if sim is None or not isinstance(a, np.ndarray):
        return a
    p = sim.poison
    sim.npoison += 1
    try:
        if a.dtype.kind == "f":
            a[...] = _POISON_F[p % 8] if p % 8 else 0.0
        elif a.dtype.kind in "iu":
            a[...] = (_POISON_I[p % 8] if p % 8 else 0) if a.dtype.kind == "i" else abs(_POISON_I[p % 8] or 0)
        elif a.dtype.kind == "b":
            a[...] = bool(p % 2)
        elif a.dtype.kind == "c":
            a[...] = _POISON_F[p % 8] if p % 8 else 0.0
    except Exception:
        pass
    return a


def _from_pkg():
    return sys._getframe(2).f_globals.get("__name__", "").startswith("neutralocean")


def sim_empty(*a, **k):
    r = _REAL_EMPTY(*a, **k)
    if core.CUR is not None and _from_pkg():
        poison(r)
    return r


def sim_empty_like(*a, **k):
    r = _REAL_EMPTY_LIKE(*a, **k)
    if core.CUR is not None and _from_pkg():
        poison(r)
    return r


# ------------------------------------------------------------------ clock
_real_time = {}


def _in_client():
    sim = core.CUR
    if sim is None:
        return None
    c = sim.cur
    if c is None or c.ident != core.get_ident():
        return None
    return sim


def _from_repo_frame(depth=2):
    # library code under test (directly, or through a thin wrapper such as timeit)
    f = sys._getframe(depth)
    for _ in range(3):
        if f is None:
            return False
        if f.f_code.co_filename.startswith(ROOT):
            return True
        f = f.f_back
    return False


def _clock(name, scale):
    real = getattr(time, name)
    _real_time[name] = real

    def clock():
        sim = _in_client()
        if sim is None or not _from_repo_frame():
            return real()
        t = sim.read_clock()
        return t if scale == 1 else int(round(t * scale))

    clock.__name__ = name
    return clock


def _sim_sleep(dt):
    sim = _in_client()
    if sim is None:
        return _real_time["sleep"](dt)
    sim.now += max(0.0, dt)


# ------------------------------------------------------------------ externals
EXT = {
    "scipy.sparse.linalg": ("solver", ["spsolve", "lsqr", "lsmr", "cg", "gmres", "bicgstab", "minres", "splu", "factorized", "spilu", "spsolve_triangular"]),
    "scipy.optimize": ("minimizer", ["minimize", "least_squares", "fmin_slsqp", "root", "root_scalar", "brentq", "minimize_scalar", "lsq_linear"]),
    "scipy.linalg": ("solver", ["solve", "lstsq", "cho_solve", "lu_solve", "solveh_banded", "solve_banded"]),
    "numpy.linalg": ("solver", ["solve", "lstsq"]),
}


def _wrap_ext(modname, cat, name):
    mod = importlib.import_module(modname)
    fn = getattr(mod, name, None)
    if fn is None:
        return

    @functools.wraps(fn)
    def ext(*a, **k):
        sim = _in_client()
        if sim is None or not _from_repo_frame():
            return fn(*a, **k)
        return sim.ext_call(cat, name, fn, a, k)

    setattr(mod, name, ext)


def install(lane="interp"):
    global LANE
    LANE = lane
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
        os.environ.setdefault(v, "1")
    if "NUMBA_CACHE_DIR" not in os.environ:
        import atexit, shutil, tempfile

        d = tempfile.mkdtemp(prefix="nosim-numba-")
        os.environ["NUMBA_CACHE_DIR"] = d
        me = os.getpid()
        atexit.register(lambda: os.getpid() == me and shutil.rmtree(d, ignore_errors=True))
    import numba
    import scipy.sparse.linalg, scipy.optimize, scipy.linalg, scipy.sparse  # noqa
    import xarray, dask, dask.array  # noqa
    import xgcm, pooch, gsw  # noqa
    import concurrent.futures, multiprocessing  # noqa

    if lane != "compiled":
        numba.njit = fake_jit
        numba.jit = fake_jit
        numba.generated_jit = fake_jit
        numba.vectorize = fake_vectorize
        numba.guvectorize = fake_guvectorize
        numba.prange = fake_prange
        np.empty = sim_empty
        np.empty_like = sim_empty_like
    for n, sc in (("time", 1), ("perf_counter", 1), ("monotonic", 1), ("process_time", 1), ("thread_time", 1), ("time_ns", 10**9), ("perf_counter_ns", 10**9), ("monotonic_ns", 10**9), ("process_time_ns", 10**9)):
        setattr(time, n, _clock(n, sc))
    _real_time["sleep"] = time.sleep
    time.sleep = _sim_sleep
    import timeit

    timeit.default_timer = time.perf_counter
    for modname, (cat, names) in EXT.items():
        for name in names:
            _wrap_ext(modname, cat, name)

    stray = core.SimStream("import-time")
    real_out = sys.stdout
    real_lock, real_rlock = threading.Lock, threading.RLock

    def sim_lock():
        return core.SimLock() if _from_repo_frame() else real_lock()

    def sim_rlock(*a, **k):
        return core.SimRLock() if _from_repo_frame() else real_rlock(*a, **k)

    threading.Lock, threading.RLock = sim_lock, sim_rlock
    if REPO != "/repo":
        sys.path.insert(0, REPO)
    sys.stdout = stray
    try:
        import neutralocean

        if not os.path.abspath(neutralocean.__file__).startswith(ROOT):
            raise RuntimeError("neutralocean imported from %s, not from %s" % (neutralocean.__file__, ROOT))
        bad = []
        for mi in pkgutil.walk_packages(neutralocean.__path__, "neutralocean."):
            n = mi.name
            if ".tests" in n or ".examples.run" in n or n.endswith(".gswc"):
                continue
            try:
                importlib.import_module(n)
            except Exception as e:  # an optional module
                bad.append((n, repr(e)))
    finally:
        sys.stdout = real_out
    core.STRAY = stray
    core.IMPORT_ERRORS = bad
    core.install_monitor(ROOT)
    return bad
