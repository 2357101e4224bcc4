"""Objects the simulated clients pass to the library, built from JSON descriptors,
and freezing / comparing of values."""
import hashlib
import importlib

import numpy as np

from . import core

LAT = ("x", "y", "w")


# ------------------------------------------------------------------ oceans
def ocean_arrays(d):
    """Stratified ocean S[...,k], T[...,k], P (1d or nd); vertical dimension last."""
    rng = np.random.default_rng(d["seed"])
    shape = tuple(d["shape"])
    hs, nk = shape[:-1], shape[-1]
    z = np.linspace(0, 1, nk)
    pbot = d.get("pbot", 3000.0)
    P1 = z ** d.get("pexp", 2) * pbot
    h = rng.uniform(-1, 1, hs)
    h2 = rng.uniform(-1, 1, hs)
    amp = d.get("amp", 1.0)
    Ts = 18.0 + 2.0 * amp * h
    Tb = 1.5 + 0.3 * amp * h2
    Ss = 34.9 + 0.25 * amp * h2
    Sb = 34.7 + 0.05 * amp * h
    prof = (1 - z) ** 1.7
    T = Tb[..., None] + (Ts - Tb)[..., None] * prof
    S = Sb[..., None] + (Ss - Sb)[..., None] * prof ** 0.8
    T = T + 0.05 * amp * rng.uniform(-1, 1, T.shape)
    S = S + 0.005 * amp * rng.uniform(-1, 1, S.shape)
    if d.get("unstable"):
        for i in d["unstable"]:
            c = np.unravel_index(i % int(np.prod(hs)), hs)
            T[c][0] = T[c][1] - 1.5 - 0.1 * i
            S[c][-2] += 0.4
    P = np.broadcast_to(P1, shape).copy()
    if d.get("pvar"):
        P = P * (1 + 0.01 * rng.uniform(-1, 1, hs))[..., None]
    if d.get("pspread"):  # casts of very different depth (terrain-following levels)
        P = P * (1 - d["pspread"] * rng.uniform(0, 1, hs))[..., None]
    for i, nb in d.get("bottoms", []):
        c = np.unravel_index(i % int(np.prod(hs)), hs)
        S[c][nb:] = np.nan
        T[c][nb:] = np.nan
    for i, nt in d.get("tops", []):
        c = np.unravel_index(i % int(np.prod(hs)), hs)
        S[c][:nt] = np.nan
        T[c][:nt] = np.nan
    for i in d.get("land", []):
        c = np.unravel_index(i % int(np.prod(hs)), hs)
        S[c][:] = np.nan
        T[c][:] = np.nan
    for i in d.get("plost", []):  # everything lost, pressures too
        c = np.unravel_index(i % int(np.prod(hs)), hs)
        for X in (S, T, P):
            X[c][:] = np.nan
    for e in d.get("edits", []):
        apply_edit_arrays(S, T, P, e)
    if d.get("p1d"):
        P = P1.copy()
        for e in d.get("edits", []):
            if e["what"] == "P":
                P *= e["f"]
    return S, T, P


def apply_edit_arrays(S, T, P, e):
    w = e["what"]
    if w == "S":
        S += e["f"]
    elif w == "T":
        T *= e["f"]
    elif w == "P":
        P *= e["f"]
    elif w == "land":
        c = np.unravel_index(e["i"] % int(np.prod(S.shape[:-1])), S.shape[:-1])
        S[c][:] = np.nan
        T[c][:] = np.nan
    elif w == "swapcasts":
        a, b = (np.unravel_index(i % int(np.prod(S.shape[:-1])), S.shape[:-1]) for i in e["ij"])
        for X in (S, T):
            t = X[a].copy()
            X[a] = X[b]
            X[b] = t


def lose(S, T, P, e):
    """Casts lost altogether, or from some level down; vertical axis last."""
    hs = S.shape[:-1]
    for i in e["casts"]:
        c = np.unravel_index(i, hs)
        S[c] = np.nan
        T[c] = np.nan
        if e.get("P") and P.ndim == S.ndim:
            P[c] = np.nan
    for i, k in e.get("trunc", []):
        c = np.unravel_index(i, hs)
        S[c][k:] = np.nan
        T[c][k:] = np.nan


def build_ocean(d):
    S, T, P = ocean_arrays(d)
    lay = d.get("layout", "nd")
    nd = S.ndim
    v = d.get("vert", nd - 1)  # position of vertical axis
    if v != nd - 1:
        S, T = (np.ascontiguousarray(np.moveaxis(X, -1, v)) for X in (S, T))
        if P.ndim == nd:
            P = np.ascontiguousarray(np.moveaxis(P, -1, v))
    if d.get("dtype"):
        S, T, P = (X.astype(d["dtype"]) for X in (S, T, P))
    if lay == "F":
        S, T, P = (np.asfortranarray(X) for X in (S, T, P))
    elif lay == "strided":
        def st(X):
            b = np.zeros(tuple(2 * n for n in X.shape), X.dtype)
            b[tuple(slice(None, None, 2) for _ in X.shape)] = X
            return b[tuple(slice(None, None, 2) for _ in X.shape)]
        S, T, P = (st(X) for X in (S, T, P))
    elif lay == "ro":
        for X in (S, T, P):
            X.flags.writeable = False
    elif lay in ("xr", "dask"):
        import xarray as xr

        hd = list(LAT[: nd - 1])
        dims = hd[:]
        dims.insert(v, "z")
        coords = {n: 10.0 * np.arange(s) for n, s in zip(dims, S.shape) if n != "z"}
        coords["z"] = np.arange(S.shape[v]) * 1.0
        chunks = d.get("chunks")
        lat2d = np.arange(float(np.prod(S.shape) // S.shape[v])).reshape([n for i, n in enumerate(S.shape) if i != v])

        def mk(X, name):
            dd = dims if X.ndim == nd else ["z"]
            arr = X
            if lay == "dask" and name in d.get("lazy", (name,)):
                ch = tuple(chunks[: X.ndim]) if X.ndim == nd else (max(1, X.shape[0] // 2),)
                arr = lazy_array(X, ch, name, d["seed"]) if not d.get("backend") else backend_array(X, name)
            cc = {k: coords[k] for k in dd}
            if X.ndim == nd and nd == 3:
                cc["lat2d"] = (hd, lat2d, {"units": "deg"})
            cc["time"] = 3.5
            return xr.DataArray(arr, dims=dd, coords=cc, name=name, attrs={"units": "u_" + name, "src": d["seed"]})

        S, T = mk(S, "salt"), mk(T, "theta")
        if d.get("Pxr", True):
            P = mk(P, "pres")
    return S, T, P


READS = []  # history of simulated chunk reads


def read_chunk(X, name, token, sl):
    """A simulated storage read of one chunk."""
    sim = core.CUR
    if sim is not None and sim.cur is not None and sim.cur.ident == core.get_ident():
        c = sim.cur

        def real():
            return np.array(X[sl])

        return sim.ext_call("read", "chunk:" + name, real, (), {})
    return np.array(X[sl])


def lazy_array(X, chunks, name, seed):
    """A dask array whose blocks come from the simulated storage."""
    import itertools

    import dask.array as da
    from dask.array.core import normalize_chunks

    ch = normalize_chunks(chunks, shape=X.shape, dtype=X.dtype)
    nm = "src-%s-%s-%s" % (name, seed, hashlib.sha1(repr(chunks).encode() + X.tobytes()).hexdigest()[:8])
    dsk = {}
    for idx in itertools.product(*[range(len(c)) for c in ch]):
        sl = tuple(slice(sum(c[:i]), sum(c[: i + 1])) for c, i in zip(ch, idx))
        dsk[(nm,) + idx] = (read_chunk, _Opaque(X), name, nm, _Opaque(sl))
    # resolve opaques at call time
    dsk = {k: (_read, v[1], v[2], v[3], v[4]) for k, v in dsk.items()}
    return da.Array(dsk, nm, ch, dtype=X.dtype)


def backend_array(X, name):
    """What xarray.open_dataset(..., cache=False) gives: indexed lazily, read from storage."""
    from xarray.backends import BackendArray
    from xarray.core import indexing

    class Stored(BackendArray):
        shape, dtype = X.shape, X.dtype

        def __getitem__(self, key):
            return indexing.explicit_indexing_adapter(key, self.shape, indexing.IndexingSupport.BASIC, lambda k: read_chunk(X, name, "", k))

    return indexing.LazilyIndexedArray(Stored())


def lazy_map(X, d, name):
    """A horizontal map as an in-memory or lazily loaded DataArray."""
    import xarray as xr

    arr = X
    if d["layout"] == "dask":
        arr = backend_array(X, name) if d.get("backend") else lazy_array(X, tuple(d.get("chunks", (1, 2)))[: X.ndim], name, d["seed"])
    return xr.DataArray(arr, dims=LAT[: X.ndim], name=name, attrs={"a": 1})


class _Opaque:
    def __init__(self, v):
        self.v = v

    def __dask_tokenize__(self):
        return "opaque"


def _read(X, name, nm, sl):
    return read_chunk(X.v, name, nm, sl.v)


# ------------------------------------------------------------------ grids
def grid_edges(hs, wrap=()):
    """Adjacent pairs of an n-dimensional lattice of casts."""
    a, b = [], []
    ix = np.arange(int(np.prod(hs))).reshape(hs)
    for ax, n in enumerate(hs):
        w = ax < len(wrap) and wrap[ax] and n > 1
        for c in np.ndindex(*hs):
            if c[ax] > 0 or w:
                m = list(c)
                m[ax] -= 1
                a.append(ix[c])
                b.append(ix[tuple(m)])
    return np.array(a, dtype=int), np.array(b, dtype=int)


def build_grid(d):
    a, b = grid_edges(d["shape"], d.get("wrap", ()))
    rng = np.random.default_rng(d["seed"])
    E = len(a)
    if d.get("scalar"):
        dist, perp = 1.0 + 0.0, 1.0 + 0.0
    elif d.get("uniform"):
        dist, perp = np.ones(E), np.ones(E)
    else:
        dist = rng.uniform(1e5, 2e5, E)
        perp = rng.uniform(1e5, 2e5, E)
    g = {"edges": (a, b), "dist": dist, "distperp": perp}
    if d.get("listedges"):
        g["edges"] = np.array([a, b])
    for e in d.get("edits", []):
        apply_edit_grid(g, e)
    return g


def apply_edit_grid(g, e):
    if e["what"] == "dist":
        g["dist"] *= e["f"]
        g["distperp"][::2] *= 1.3
    elif e["what"] == "edges":
        a, b = g["edges"]
        n = e["n"] % max(1, len(a))
        # drop the n'th edge by making it a duplicate of its neighbour, in place
        m = (n + 1) % len(a)
        a[n], b[n] = a[m], b[m]


# ------------------------------------------------------------------ misc objects
def apply_edit_generic(o, d, e):
    """In-place edits a caller may make of plain arrays, sparse graphs, edge lists and dicts of his."""
    f = e["f"]
    if d["k"] in ("rand", "randsort"):
        x = o.values if is_xr(o) else o
        x *= f
    elif d["k"] == "graph":
        for G in o.values() if isinstance(o, dict) else [o]:
            G.data *= f
    elif d["k"] == "edges":
        a, b = o
        a[0], b[0] = a[-1], b[-1]


def build_obj(d, get):
    o = build_obj0(d, get)
    if d["k"] in ("rand", "randsort", "graph", "edges"):
        for e in d.get("edits", []):
            apply_edit_generic(o, d, e)
    return o


def build_obj0(d, get):
    k = d["k"]
    if k == "ocean":
        return build_ocean(d)
    if k == "grid":
        return build_grid(d)
    if k == "surf":  # an initial pressure surface
        rng = np.random.default_rng(d["seed"])
        p = d["p"] + d.get("amp", 50.0) * rng.uniform(-1, 1, tuple(d["shape"]))
        for i in d.get("nan", []):
            p.reshape(-1)[i % p.size] = np.nan
        if "pin" in d:
            p[tuple(d["pin"])] = d["p"]
        if d.get("dtype"):
            p = p.astype(d["dtype"])
        if d.get("layout") in ("xr", "dask"):
            p = lazy_map(p, d, "p_init")
        elif d.get("layout") == "F":
            p = np.asfortranarray(p)
        elif d.get("layout") == "ro":
            p.flags.writeable = False
        for e in d.get("edits", []):
            if is_xr(p):
                p.values[...] += e["f"]
            else:
                p += e["f"]
        return p
    if k == "lit":
        import copy

        return copy.deepcopy(d["v"])
    if k == "tuple":
        return tuple(d["v"])
    if k == "eos":  # functions from the library's own factories
        m = importlib.import_module("neutralocean.eos.tools")
        f = m.make_eos(d["eos"], d.get("grav"), d.get("rho_c"))
        if not d.get("s_t"):
            return f
        g = m.make_eos_s_t(d["eos"], d.get("grav"), d.get("rho_c"))
        return (f, g) if not d.get("aslist") else [f, g]
    if k == "ueos":  # functions written by the user
        return user_eos(d)
    if k == "rand":
        rng = np.random.default_rng(d["seed"])
        x = rng.uniform(d.get("lo", 0), d.get("hi", 1), tuple(d["shape"]))
        for i in d.get("nan", []):
            x.reshape(-1)[i] = np.nan
        for i in d.get("lost", []):
            x.reshape(-1, x.shape[-1])[i] = np.nan
        for i, k in d.get("trunc", []):
            x.reshape(-1, x.shape[-1])[i, k:] = np.nan
        return lazy_map(x, d, d["name"]) if d.get("layout") else x
    if k == "randsort":
        rng = np.random.default_rng(d["seed"])
        return np.sort(rng.uniform(d.get("lo", 0), d.get("hi", 1), tuple(d["shape"])), axis=-1)
    if k == "zerofn":
        a = d["a"]
        import numba

        return numba.njit(lambda x: x * x * x - a)
    if k == "binfn":
        import numba

        return numba.njit(lambda x, y: x - 2.0 * y)
    if k == "csr":
        return importlib.import_module("neutralocean.grid.graph").edges_to_csr(grid_edges(d["shape"]))
    if k == "good":
        rng = np.random.default_rng(d["seed"])
        g = rng.random(tuple(d["shape"])) < 0.8
        g[0] = True
        return g
    if k == "irand":
        rng = np.random.default_rng(d["seed"])
        return rng.integers(d["lo"], d["hi"], tuple(d["shape"]))
    if k == "faces":
        return {"tile": {0: {"X": (None, (1, "X", False)), "Y": (None, None)}, 1: {"X": ((0, "X", False), None), "Y": (None, None)}}}
    if k == "edges":
        return grid_edges(d["shape"], d.get("wrap", ()))
    if k == "graph":
        from scipy.sparse import coo_matrix

        a, b = grid_edges(d["shape"], d.get("wrap", ()))
        n = d["shape"][0] * d["shape"][1]
        rng = np.random.default_rng(d["seed"])
        w = rng.uniform(1, 2, len(a))
        G = coo_matrix((w, (a, b)), shape=(n, n)).tocsr()
        if d.get("sym"):
            G = (G + G.T).tocsr()
        if d.get("dict"):
            H = G.copy()
            H.data = H.data * 1.5
            return {"dist": G, "distperp": H}
        return G
    raise KeyError(k)


def user_eos(d):
    import numba

    a, b, c = d.get("abc", (0.8, 0.2, 0.0045))

    @numba.njit
    def ueos(s, t, p):
        return 1000.0 + a * s - b * t - 0.004 * t * t + c * p - 2e-6 * t * p

    @numba.njit
    def ueos_s_t(s, t, p):
        return a + 0.0 * s, -b - 0.008 * t - 2e-6 * p

    if d.get("s_t"):
        return (ueos, ueos_s_t)
    return ueos


# ------------------------------------------------------------------ freezing
def is_xr(x):
    return type(x).__module__.startswith("xarray") and hasattr(x, "dims")


def freeze(x, lazyok=False, depth=0):
    """Deep, comparable, picklable copy."""
    if depth > 12:
        return ("deep", str(type(x)))
    if isinstance(x, np.ndarray):
        return ("nd", x.dtype.str, tuple(x.shape), np.array(x, copy=True, order="C"))
    if isinstance(x, np.generic):
        return ("nd0", x.dtype.str, x.tobytes(), x)
    if is_xr(x):
        v = x.variable if hasattr(x, "variable") else None
        lazy = v is not None and not isinstance(v._data, np.ndarray)
        if lazy and lazyok:
            dat = ("lazy", str(type(v._data)), getattr(v._data, "chunks", None), str(getattr(v._data, "name", "")), str(v.dtype))
        else:
            dat = ("nd", str(x.dtype.str), tuple(x.shape), np.array(x.values, copy=True))
        co = tuple((str(k), freeze(np.asarray(x.coords[k].values)), freeze(dict(x.coords[k].attrs))) for k in sorted(x.coords, key=str))
        return ("xr", "lazy" if lazy else "mem", tuple(x.dims), x.name, freeze(dict(x.attrs)), co, dat)
    if isinstance(x, dict):
        return ("dict", tuple((repr(k), freeze(v, lazyok, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v, lazyok, depth + 1) for v in x))
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return ("py", type(x).__name__, x)
    if isinstance(x, float):
        return ("pyf", x)
    if hasattr(x, "tocoo") and hasattr(x, "nnz"):
        c = x.tocsr()
        return ("sparse", x.format, tuple(x.shape), freeze(c.indptr), freeze(c.indices), freeze(c.data))
    if type(x).__module__.startswith("dask"):
        return ("dask", str(getattr(x, "name", "")), getattr(x, "chunks", None))
    if callable(x):
        return ("fn", getattr(x, "__name__", "?"))
    return ("obj", type(x).__name__, repr(x)[:200])


def _arr_same(a, b):
    if a.dtype.kind in "fc":
        ba, bb = np.isnan(a), np.isnan(b)
        if not np.array_equal(ba, bb):
            return False
        aa, ab = a.copy(), b.copy()
        aa[ba] = 0
        ab[bb] = 0
        return aa.tobytes() == ab.tobytes()
    return a.tobytes() == b.tobytes()


def diff(a, b, path="", ignore_timer=True):
    """None if the frozen values are identical, else a short description."""
    if type(a) is not type(b) or a[0] != b[0]:
        return "%s: %s != %s" % (path or "value", a[0] if isinstance(a, tuple) else type(a), b[0] if isinstance(b, tuple) else type(b))
    k = a[0]
    if k == "nd":
        if a[1] != b[1] or a[2] != b[2]:
            return "%s: dtype/shape %s%s != %s%s" % (path, a[1], a[2], b[1], b[2])
        if not _arr_same(a[3], b[3]):
            x, y = np.atleast_1d(a[3]), np.atleast_1d(b[3])
            ne = ~((x == y) | ((x != x) & (y != y)))
            if not ne.any():
                ne = np.ones_like(ne)
            i = tuple(int(j) for j in np.argwhere(ne)[0])
            return "%s%s: %r != %r (%d of %d differ)" % (path, list(i), x[i].item(), y[i].item(), int(ne.sum()), x.size)
        return None
    if k == "nd0":
        if a[1] != b[1]:
            return "%s: dtype %s != %s" % (path, a[1], b[1])
        if a[2] != b[2] and not (a[3] != a[3] and b[3] != b[3]):
            return "%s: %r != %r" % (path, a[3], b[3])
        return None
    if k == "pyf":
        return None if (a[1] == b[1] and str(a[1]) == str(b[1])) or (a[1] != a[1] and b[1] != b[1]) else "%s: %r != %r" % (path, a[1], b[1])
    if k == "dict":
        ka, kb = [x[0] for x in a[1]], [x[0] for x in b[1]]
        if sorted(ka) != sorted(kb):
            return "%s: keys %s != %s" % (path, ka, kb)
        db = dict(b[1])
        for kk, v in a[1]:
            if ignore_timer and "timer" in kk:
                if v[0] == "nd" and db[kk][0] == "nd" and v[2] != db[kk][2]:
                    return "%s[%s]: shape %s != %s" % (path, kk, v[2], db[kk][2])
                continue
            r = diff(v, db[kk], path + "[%s]" % kk, ignore_timer)
            if r:
                return r
        return None
    if k in ("list", "tuple"):
        if len(a[1]) != len(b[1]):
            return "%s: length %d != %d" % (path, len(a[1]), len(b[1]))
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            r = diff(x, y, path + "[%d]" % i, ignore_timer)
            if r:
                return r
        return None
    if k == "xr":
        if a[1] != b[1]:
            return "%s: %s != %s" % (path, a[1], b[1])
        if a[2] != b[2] or a[3] != b[3]:
            return "%s: dims/name %s != %s" % (path, a[2:4], b[2:4])
        r = diff(a[4], b[4], path + ".attrs", False)
        if r:
            return r
        if [c[0] for c in a[5]] != [c[0] for c in b[5]]:
            return "%s: coords %s != %s" % (path, [c[0] for c in a[5]], [c[0] for c in b[5]])
        for x, y in zip(a[5], b[5]):
            r = diff(x[1], y[1], path + ".coords[%s]" % x[0]) or diff(x[2], y[2], path + ".coords[%s].attrs" % x[0])
            if r:
                return r
        if a[6][0] == "lazy" or b[6][0] == "lazy":
            return None if a[6] == b[6] else "%s: lazy data changed %s != %s" % (path, a[6], b[6])
        return diff(a[6], b[6], path + ".data")
    if k == "sparse":
        if a[1:3] != b[1:3]:
            return "%s: sparse format/shape" % path
        for i in (3, 4, 5):
            r = diff(a[i], b[i], path + ".sparse%d" % i)
            if r:
                return r
        return None
    return None if a == b else "%s: %r != %r" % (path, a, b)


def arrays_in(x, out=None, depth=0):
    """All numpy arrays reachable from x (not computing lazy ones)."""
    if out is None:
        out = []
    if depth > 8:
        return out
    if isinstance(x, np.ndarray):
        out.append(x)
    elif is_xr(x):
        v = x.variable
        if isinstance(v._data, np.ndarray):
            out.append(v._data)
        # coordinates aside: xarray shares them between arrays by convention
    elif isinstance(x, dict):
        for v in x.values():
            arrays_in(v, out, depth + 1)
    elif isinstance(x, (list, tuple)):
        for v in x:
            arrays_in(v, out, depth + 1)
    elif hasattr(x, "tocoo") and hasattr(x, "data") and isinstance(x.data, np.ndarray):
        out.append(x.data)
        for n in ("indices", "indptr", "row", "col"):
            if isinstance(getattr(x, n, None), np.ndarray):
                out.append(getattr(x, n))
    return out


def containers_in(x, out=None, depth=0):
    """Mutable containers (dict/list/attrs) reachable from x."""
    if out is None:
        out = []
    if depth > 8:
        return out
    if isinstance(x, dict):
        out.append(x)
        for v in x.values():
            containers_in(v, out, depth + 1)
    elif isinstance(x, list):
        out.append(x)
        for v in x:
            containers_in(v, out, depth + 1)
    elif isinstance(x, tuple):
        for v in x:
            containers_in(v, out, depth + 1)
    elif is_xr(x):
        out.append(x.attrs)
    return out


def shell(x, path="", out=None, depth=0):
    """Which mutable objects an argument consists of: {path: (object, address, flags)}; keeps them alive."""
    if out is None:
        out = {}
    if depth > 8:
        return out
    if isinstance(x, np.ndarray):
        f = x.flags
        out[path] = (x, x.__array_interface__["data"][0], (f.writeable, x.strides, x.shape, x.dtype.str))
    elif is_xr(x):
        d = x.variable._data
        if isinstance(d, np.ndarray):
            shell(d, path + ".data", out, depth + 1)
    elif isinstance(x, (dict, list)):
        out[path] = (x, 0, len(x))
        for k, v in x.items() if isinstance(x, dict) else enumerate(x):
            shell(v, "%s[%r]" % (path, k), out, depth + 1)
    elif isinstance(x, tuple):
        for k, v in enumerate(x):
            shell(v, "%s[%r]" % (path, k), out, depth + 1)
    elif hasattr(x, "tocoo") and hasattr(x, "data"):
        for n in ("data", "indices", "indptr", "row", "col"):
            if isinstance(getattr(x, n, None), np.ndarray):
                shell(getattr(x, n), path + "." + n, out, depth + 1)
    return out


def shell_diff(a, b):
    """None if an argument still consists of the same objects in the same memory with the same flags."""
    for k in a:
        if k not in b:
            return "%s is gone or of another kind" % k
        if a[k][0] is not b[k][0]:
            return "%s was replaced by another object" % k
        if a[k][1:] != b[k][1:]:
            return "%s changed its memory, shape or flags: %s, was %s" % (k, b[k][1:], a[k][1:])
    for k in b:
        if k not in a:
            return "%s is new" % k
    return None


def digest(fz):
    h = hashlib.sha1()

    def go(x):
        if isinstance(x, np.ndarray):
            y = np.array(x, copy=True)
            if y.dtype.kind == "f":
                y[np.isnan(y)] = np.nan
            h.update(y.tobytes())
        elif isinstance(x, np.generic):
            h.update(x.tobytes())
        elif isinstance(x, (tuple, list)):
            h.update(b"(")
            for v in x:
                go(v)
            h.update(b")")
        else:
            h.update(repr(x).encode())

    go(fz)
    return h.hexdigest()[:16]
