"""Seeded generation of library calls (op descriptors) over small worlds."""
import copy
import json

EOS_STR = [
    ("gsw", None, None), ("jmd95", None, None), ("jmdfwg06", None, None),
    ("gsw", 9.81, 1027.5), ("gsw", 9.81, 1035.0), ("gsw", 9.8, 1027.5),
    ("jmd95", 9.81, 1027.5), ("jmd95", 9.81, 1035.0), ("jmd95", 9.8, 1027.5), ("jmd95", 9.8, 1035.0),
    ("jmdfwg06", 9.81, 1027.5), ("jmdfwg06", 9.81, 1035.0), ("jmdfwg06", 9.8, 1027.5),
]
SURF = "neutralocean.surface:"
LAT = ("x", "y", "w")


def T(*x):
    return {"$t": list(x)}


def R(name, **k):
    return dict({"$": name}, **k)


class World:
    """Names and descriptors of the objects of one scenario."""

    def __init__(self, rng, shape=None, layouts=("nd", "nd", "F", "strided", "ro", "xr"), lazy=False, big=False):
        self.rng = rng
        self.objs = {}
        r = rng
        if shape is None:
            x = r.random()
            nk = r.choice([5, 6, 7])
            if x < 0.015:
                shape = [7, 6, 9]
            elif x < 0.07:
                shape = [r.choice([4, 6]), nk]  # an unstructured list of casts
            elif x < 0.1:
                shape = [2, 2, 2, nk]  # tiles
            else:
                shape = [r.choice([2, 3, 3, 4]), r.choice([1, 2, 3, 3]), nk]
        self.shape = list(shape)
        self.hs, self.nk = self.shape[:-1], self.shape[-1]
        self.ncast = 1
        for n in self.hs:
            self.ncast *= n
        self.pini = r.choice([0, r.randrange(self.ncast)])
        self.pinc = []
        i = self.pini
        for n in self.hs[::-1]:
            self.pinc.insert(0, i % n)
            i //= n
        self.layouts = layouts
        self.lazy = lazy
        self.oceans, self.grids, self.surfs, self.eoss = [], [], [], []
        self.n = 0

    def add(self, pre, d):
        self.n += 1
        nm = "%s%d" % (pre, self.n)
        self.objs[nm] = d
        return nm

    def other(self):
        """A cast that is not the pinning cast."""
        i = self.rng.randrange(self.ncast - 1)
        return i + (i >= self.pini)

    # ---- objects
    def new_ocean(self, **kw):
        r = self.rng
        ncast, nd = self.ncast, len(self.shape)
        lay = "dask" if self.lazy else r.choice(self.layouts)
        d = {"k": "ocean", "seed": r.randrange(10**6), "shape": self.shape, "layout": lay, "amp": r.choice([0.3, 1.0, 1.0, 2.0])}
        if lay in ("nd", "xr", "dask", "F") and r.random() < 0.35:
            d["vert"] = r.randrange(nd)
        if r.random() < 0.4 and lay != "strided":
            d["p1d"] = True
        elif r.random() < 0.25:
            d["pspread"] = r.choice([0.2, 0.6])
        if r.random() < 0.15:
            d["pbot"] = r.choice([700.0, 5500.0])
        if lay in ("xr", "dask"):
            d["Pxr"] = r.random() < 0.7
        if lay == "dask":
            d["chunks"] = [r.choice([1, 2, n]) for n in (self.shape if "vert" not in d else self._moved(d["vert"]))]
        if r.random() < 0.15 and lay in ("nd", "F"):
            d["dtype"] = "f4"
        if ncast > 2 and r.random() < 0.4:
            d["land"] = [self.other() for _ in range(r.choice([1, 1, 2]))]
        if ncast > 2 and r.random() < 0.4:
            d["bottoms"] = [[self.other(), r.randrange(1, self.nk)] for _ in range(r.choice([1, 1, 2]))]
        d.update(kw)
        nm = self.add("oc", d)
        self.oceans.append(nm)
        return nm

    def _moved(self, v):
        s = list(self.shape)
        k = s.pop()
        s.insert(v, k)
        return s

    def ocean(self):
        if not self.oceans or self.rng.random() < 0.3:
            return self.new_ocean()
        return self.rng.choice(self.oceans)

    def new_grid(self, **kw):
        r = self.rng
        d = {"k": "grid", "seed": r.randrange(10**6), "shape": self.hs, "wrap": [int(r.random() < 0.3) if n > 2 and i < 2 else 0 for i, n in enumerate(self.hs)]}
        if r.random() < 0.2:
            d["uniform"] = 1
        if r.random() < 0.15:
            d["listedges"] = 1
        d.update(kw)
        nm = self.add("gr", d)
        self.grids.append(nm)
        return nm

    def grid(self):
        if not self.grids or self.rng.random() < 0.25:
            return self.new_grid()
        return self.rng.choice(self.grids)

    def surf(self, p=None):
        r = self.rng
        d = {"k": "surf", "seed": r.randrange(10**6), "shape": self.hs, "p": p or r.choice([600.0, 1000.0, 1500.0]), "amp": r.choice([20.0, 80.0])}
        if r.random() < 0.3:
            d["nan"] = [self.other() for _ in range(r.choice([1, 1, 2]))] if self.ncast > 1 else [0]
            d["pin"] = self.pinc
        if r.random() < 0.2:
            d["layout"] = r.choice(["xr", "F", "ro"])
        nm = self.add("su", d)
        self.surfs.append(nm)
        return nm

    def eos(self, kind, r=None):
        """-> dict(eos=..., grav=..., rho_c=...).  kind: 's_t' tuple allowed/needed, 'fn', 'dens'"""
        r = self.rng
        x = r.random()
        if kind == "dens":  # a density function
            if x < 0.75:
                nm = self.add("eo", {"k": "eos", "eos": r.choice(["jmd95", "jmdfwg06"]), "grav": r.choice([None, 9.81]), "rho_c": r.choice([None, 1027.5])})
            else:
                nm = self.add("eo", {"k": "ueos", "abc": [0.78, round(r.uniform(0.15, 0.25), 4), 0.0045]})
            return {"eos": R(nm)}
        if x < 0.8:
            e, g, c = r.choice(EOS_STR)
            out = {"eos": e}
            if g is not None:
                out["grav"], out["rho_c"] = g, c
            return out
        two = kind == "s_t"
        if x < 0.9:
            e, g, c = r.choice(EOS_STR)
            nm = self.add("eo", {"k": "eos", "eos": e, "grav": g, "rho_c": c, "s_t": two, "aslist": two and r.random() < 0.3})
        else:
            nm = self.add("ue", {"k": "ueos", "abc": [0.78, round(r.uniform(0.15, 0.25), 4), 0.0045], "s_t": two})
        return {"eos": R(nm)}

    def vert_dim(self, oc):
        d = self.objs[oc]
        nd = len(d["shape"])
        v = d.get("vert", nd - 1)
        if d.get("layout") in ("xr", "dask"):
            return "z"
        return v if self.rng.random() < 0.5 else v - nd

    def pin_cast(self, oc):
        d = self.objs[oc]
        pin = self.pinc
        if d.get("layout") in ("xr", "dask") and self.rng.random() < 0.4:
            return {n: 10.0 * i for n, i in zip(LAT, pin)}
        if len(pin) == 1 and self.rng.random() < 0.5:
            return pin[0]
        return T(*pin)


def oc_args(nm):
    return [R(nm, i=0), R(nm, i=1), R(nm, i=2)]


# ------------------------------------------------------------------ families
def f_isopyc(w, kind, oc=None):
    r = w.rng
    oc = oc or w.ocean()
    diags = r.random() < 0.7
    kw = {"vert_dim": w.vert_dim(oc), "interp": r.choice(["linear", "pchip"]), "diags": diags}
    kw.update(w.eos("s_t" if diags else "fn"))
    if r.random() < 0.4:
        kw["output"] = r.random() < 0.5
    if r.random() < 0.3:
        kw["TOL_P_SOLVER"] = r.choice([1e-2, 1e-6, 2.0])
    if diags or r.random() < 0.3:
        kw["grid"] = R(w.grid())
    m = r.random()
    if m < 0.6:
        kw["pin_cast"] = w.pin_cast(oc)
        kw["pin_p"] = r.choice([500.0, 900.0, 1400.0] * 3 + [0.0, 150.0, 2600.0, 9000.0])
        if r.random() < 0.4:
            kw["ref"] = r.choice([0.0, 1000.0, 2000.0]) if kind == "potential" else r.choice([T(34.5, 3.0), [34.6, 4.0], T(35.0, 5.0)])
    else:
        e = kw["eos"]
        sv = e == "gsw" or (isinstance(e, dict) and w.objs[e["$"]].get("eos") == "gsw")
        if kind == "potential":
            kw["ref"] = 1000.0
            v = r.choice([1031.5, 1031.5, 1031.5, 1029.0, 1031.0, 1032.0, 1060.0])  # the last: nowhere
            kw["isoval"] = 1 / v if sv else v
        else:
            kw["ref"] = T(34.8, 6.0)
            v = r.choice([0.01, 0.01, -0.05, 0.0, 0.2, 50.0])
            kw["isoval"] = -1e-6 * v if sv else v
    return {"fam": kind, "fn": SURF + kind + "_surf", "args": oc_args(oc), "kw": kw}


def f_omega(w, oc=None, iters=None):
    r = w.rng
    oc = oc or w.ocean()
    kw = {"vert_dim": w.vert_dim(oc), "interp": r.choice(["linear", "linear", "pchip"]), "diags": r.random() < 0.75}
    kw.update(w.eos("s_t"))
    kw["ITER_MAX"] = iters if iters is not None else r.choice([1, 2, 3, 1, 2, 3, 0, 5])
    if r.random() < 0.3:
        kw["ITER_MIN"] = r.choice([0, 1, 2])
    if r.random() < 0.4:
        kw["output"] = r.random() < 0.5
    if r.random() < 0.35:
        kw["OMEGA_FORMULATION"] = r.choice(["gradient", "poisson", "Gradient"])
    if r.random() < 0.3:
        kw["ITER_START_WETTING"] = r.choice([1, 2, 3])
    if r.random() < 0.3:
        kw["ITER_STOP_WETTING"] = r.choice([0, 1, 2])
    if r.random() < 0.3:
        kw["TOL_LRPD_MAV"] = r.choice([0.0, 1e-9, 1e-3])
    if r.random() < 0.2:
        kw["TOL_P_CHANGE_RMS"] = r.choice([1e-3, 10.0])
    if r.random() < 0.2:
        kw["ITER_WET_PERIM"] = r.choice([1, 2])
    x = r.random()
    if x < 0.2:
        kw["p_ml"] = {"pot_dens_diff": r.choice([0.03, 0.05]), "ref_p": r.choice([0.0, 100.0]), "bottle_index": r.choice([0, 1])}
    elif x < 0.35:
        kw["p_ml"] = R(w.add("pm", {"k": "rand", "seed": r.randrange(10**6), "lo": 10.0, "hi": 80.0, "shape": w.hs}))
        if r.random() < 0.4:
            w.objs[kw["p_ml"]["$"]]["nan"] = [r.randrange(w.ncast)]
        if r.random() < 0.2:
            w.objs[kw["p_ml"]["$"]]["hi"] = 1700.0  # may take the surface away, even where it is pinned
    if r.random() < 0.5:
        pi = r.choice([600.0, 1000.0, 1500.0] * 4 + [60.0, 2500.0, 9000.0])
    else:
        pi = R(w.surf())
    return {"fam": "omega", "fn": SURF + "omega_surf", "args": oc_args(oc) + [R(w.grid()), w.pin_cast(oc), pi], "kw": kw}


def f_mixed(w, oc=None):
    r = w.rng
    oc = oc or w.ocean()
    kw = {"vert_dim": w.vert_dim(oc), "interp": r.choice(["linear", "pchip"])}
    kw.update(w.eos("fn"))
    if r.random() < 0.5:
        kw["pot_dens_diff"] = r.choice([0.03, 0.1, 0.3])
    if r.random() < 0.3:
        kw["ref_p"] = r.choice([0.0, 200.0])
    if r.random() < 0.3:
        kw["bottle_index"] = r.choice([0, 2])
    return {"fam": "mixed", "fn": "neutralocean.mixed_layer:mixed_layer", "args": oc_args(oc), "kw": kw}


def _casts(w, n=None):
    r = w.rng
    nm = w.add("ca", {"k": "ocean", "seed": r.randrange(10**6), "shape": [n or getattr(w, "ncasts", None) or r.choice([2, 4, 5]), r.choice([6, 8])], "layout": r.choice(["nd", "nd", "ro", "F", "xr"]), "amp": 0.4})
    return nm


def f_traj(w, oc=None):
    r = w.rng
    if oc is None:
        c = [n for n in w.objs if n.startswith("ca")]
        oc = r.choice(c) if c and r.random() < 0.6 else _casts(w)
    kw = {"interp": r.choice(["linear", "pchip"]), "vert_dim": "z" if w.objs[oc].get("layout") == "xr" else -1}
    kw.update(w.eos("fn"))
    if r.random() < 0.3:
        kw["tol_p"] = r.choice([1e-2, 1e-6])
    return {"fam": "traj", "fn": "neutralocean.traj:neutral_trajectory", "args": oc_args(oc) + [r.choice([400.0, 800.0, 1200.0])], "kw": kw}


def _nd_casts(w):
    c = [n for n in w.objs if n.startswith("ca") and w.objs[n]["layout"] in ("nd", "ro")]
    if c and w.rng.random() < 0.6:
        return w.rng.choice(c)
    nm = _casts(w)
    w.objs[nm]["layout"] = "nd"
    return nm


def f_bottle(w):
    r = w.rng
    oc = _nd_casts(w)
    i = r.randrange(w.objs[oc]["shape"][0])
    kw = {"interp": r.choice(["linear", "pchip"])}
    kw.update(w.eos("fn"))
    if r.random() < 0.3:
        kw["tol_p"] = r.choice([1e-2, 1e-6])
    return {"fam": "bottle", "fn": "neutralocean.traj:ntp_bottle_to_cast", "args": [round(r.uniform(34.6, 35.0), 3), round(r.uniform(3, 9), 3), r.choice([300.0, 800.0])] + [R(oc, i=j, at=[i]) for j in range(3)], "kw": kw}


def f_veronis(w):
    r = w.rng
    oc = _nd_casts(w)
    i = r.randrange(w.objs[oc]["shape"][0])
    kw = {"interp": r.choice(["linear", "pchip"]), "dp": r.choice([50.0, 100.0, 200.0])}
    kw.update(w.eos("s_t"))
    if r.random() < 0.4:
        kw["p0"] = r.choice([0.0, 100.0, 2000.0])
    if r.random() < 0.3:
        kw["p_ref"] = r.choice([0.0, 1000.0])
    if r.random() < 0.3:
        kw["b"] = 2.0
    return {"fam": "veronis", "fn": "neutralocean.label:veronis", "args": [r.choice([500.0, 1500.0, 2500.0])] + [R(oc, i=j, at=[i]) for j in range(3)], "kw": kw}


def f_ntp(w):
    r = w.rng
    s = w.add("ss", {"k": "rand", "seed": r.randrange(10**6), "lo": 34.5, "hi": 35.0, "shape": w.hs})
    t = w.add("ts", {"k": "rand", "seed": r.randrange(10**6), "lo": 2.0, "hi": 8.0, "shape": w.hs})
    p = w.surf()
    g = w.grid()
    kw = {}
    e, gv, rc = r.choice(EOS_STR)
    if gv is not None:
        kw["grav"], kw["rho_c"] = gv, rc
    kw["eos_s_t"] = e
    norms = r.random() < 0.5
    ga = R(g)
    if not norms and r.random() < 0.3:
        ga = R(w.add("ed", {"k": "edges", "shape": w.hs}))
    return {"fam": "ntp", "fn": "neutralocean.ntp:ntp_epsilon_errors" + ("_norms" if norms else ""), "args": [R(s), R(t), R(p), ga], "kw": kw}


def f_unstable(w, oc=None):
    oc = oc or w.ocean()
    kw = {"vert_dim": w.vert_dim(oc)}
    kw.update(w.eos("dens"))
    return {"fam": "unstable", "fn": "neutralocean.stability:count_unstable", "args": oc_args(oc), "kw": kw}


def stab_ocean(w, layouts=("nd", "nd", "F", "strided", "xr")):
    r = w.rng
    ncast = w.ncast
    sh = w.hs + [r.choice([4, 5, 6])]
    d = {"k": "ocean", "seed": r.randrange(10**6), "shape": sh, "layout": r.choice(layouts), "amp": 0.5}
    k = r.randrange(1, min(4, ncast) + 1)
    d["unstable"] = sorted(r.sample(range(ncast), k))
    if d["layout"] != "strided" and r.random() < 0.4:
        d["vert"] = r.randrange(len(sh))
    if r.random() < 0.3 and ncast > 1:
        d["land"] = [r.randrange(ncast)]
    if r.random() < 0.3:
        d["bottoms"] = [[r.randrange(ncast), r.randrange(1, sh[-1])]]
    if r.random() < 0.3:
        d["tops"] = [[r.randrange(ncast), 1]]
    if r.random() < 0.3 and d["layout"] != "strided":
        d["p1d"] = True
    return w.add("st", d)


def f_stabilize(w, oc=None, inplace=False):
    r = w.rng
    oc = oc or stab_ocean(w)
    kw = {"vert_dim": w.vert_dim(oc), "verbose": r.random() < 0.4}
    e = w.eos("dens")["eos"]
    if r.random() < 0.3:
        kw["min_dLRPDdp"] = r.choice([1e-5, 1e-7])
    if r.random() < 0.3:
        kw["weight"] = r.choice([1.0, 30.0])
    if r.random() < 0.25:
        kw["options"] = r.choice([{"maxiter": 500}, {"maxiter": 1}, {"maxiter": 4}, {"ftol": 1e-4}])
    if r.random() < 0.1:
        kw["tol"] = 1e-6
    return {"fam": "stabilize", "fn": "@stabilize_inplace" if inplace else "@stabilize", "args": oc_args(oc) + [e], "kw": kw}


def f_interp(w):
    r = w.rng
    n = r.choice([4, 6])
    pre = [2, 3] if r.random() < 0.7 else []
    X = w.add("X", {"k": "randsort", "seed": r.randrange(10**6), "shape": pre + [n]})
    Y = w.add("Y", {"k": "rand", "seed": r.randrange(10**6), "shape": pre + [n]})
    interp = r.choice(["linear", "pchip"])
    m = "neutralocean.ppinterp." + interp + ":" + interp
    x = r.random()
    if x < 0.3:
        return {"fam": "coeffs", "fn": m + "_coeffs", "args": [R(X), R(Y)], "kw": {}}
    if x < 0.5:
        return {"fam": "interp", "fn": m + "_interp", "args": [0.5, R(X), R(Y), r.choice([0, 1])], "kw": {}}
    if x < 0.65:
        Z = w.add("Z", {"k": "rand", "seed": r.randrange(10**6), "shape": pre + [n]})
        return {"fam": "interp2", "fn": m + "_interp_two", "args": [0.4, R(X), R(Y), R(Z), 0], "kw": {}}
    kw = {"interpolant": interp, "kind": r.choice(["u", "1"]) if not pre else "u", "out": r.choice(["coeffs", "interp"]), "num_dep_vars": 1}
    if kw["out"] == "interp":
        return {"fam": "ppval", "fn": "@ppval", "args": [0.5, R(X), R(Y), 0], "kw": kw}
    if kw["kind"] == "1" and r.random() < 0.5:
        kw["nans"] = False
    return {"fam": "ppval", "fn": "@ppval", "args": [R(X), R(Y)], "kw": kw}


def f_eos(w):
    r = w.rng
    e, g, c = r.choice(EOS_STR)
    fac = r.choice(["make_eos", "make_eos_s_t", "make_eos_p"])
    pts = [T(34.5, 3.0, 1000.0), T(35.0, 12.0, 50.0)]
    args = [e]
    if r.random() < 0.1:
        args = [R(w.add("ue", {"k": "ueos", "abc": [0.78, 0.2, 0.0045]}))]
        fac = "make_eos"
    kw = {} if g is None else {"grav": g, "rho_c": c}
    if fac != "make_eos_s_t" and r.random() < 0.35:
        s = w.add("sv", {"k": "rand", "seed": r.randrange(10**6), "lo": 34.0, "hi": 35.5, "shape": [2, 3]})
        return {"fam": "vec", "fn": "@vecval", "factory": "neutralocean.eos.tools:" + fac, "args": args, "kw": kw, "vals": [T(R(s), 4.0, 500.0), T(R(s), R(s), R(s))]}
    return {"fam": "eos", "fn": "@eosval", "factory": "neutralocean.eos.tools:" + fac, "args": args, "kw": kw, "vals": pts}


FACE2 = {"tile": {0: {"X": (None, (1, "X", False)), "Y": (None, None)}, 1: {"X": ((0, "X", False), None), "Y": (None, None)}}}


def f_grid(w):
    r = w.rng
    x = r.random()
    ni, nj = r.choice([3, 4]), r.choice([2, 3, 4])

    def arr(shape):
        return R(w.add("dd", {"k": "rand", "seed": r.randrange(10**6), "lo": 1.0, "hi": 2.0, "shape": shape}))

    if x < 0.35:
        kw = {}
        for k in ("dxC", "dyC", "dyG", "dxG"):
            y = r.random()
            if y < 0.5:
                kw[k] = arr([ni, nj])
            elif y < 0.7:
                kw[k] = arr([1, nj])
            elif y < 0.85:
                kw[k] = r.choice([1.0, 2.5])
        return {"fam": "rect", "fn": "neutralocean.grid.rectilinear:build_grid", "args": [T(ni, nj), T(r.random() < 0.5, r.random() < 0.5)], "kw": kw}
    if x < 0.5:
        kw = {}
        for k in ("e1u", "e2v", "e2u", "e1v"):
            if r.random() < 0.5:
                kw[k] = arr([ni, nj])
        return {"fam": "tri", "fn": "neutralocean.grid.tripolar:build_grid", "args": [T(ni, nj)], "kw": kw}
    if x < 0.6:
        per = [r.random() < 0.5, r.random() < 0.5]
        E = (ni - (not per[0])) * nj + ni * (nj - (not per[1]))
        return {"fam": "rectmap", "fn": "neutralocean.grid.rectilinear:edgedata_to_maps", "args": [arr([E]), T(ni, nj), T(*per)], "kw": {}}
    if x < 0.68:
        return {"fam": "trimap", "fn": "neutralocean.grid.tripolar:edgedata_to_maps", "args": [arr([2 * ni * nj]), T(ni, nj)], "kw": {}}
    if x < 0.8:
        g = R(w.add("G", {"k": "graph", "seed": r.randrange(10**6), "shape": [ni, nj], "sym": r.random() < 0.5, "dict": r.random() < 0.5}))
        return {"fam": "graph", "fn": "neutralocean.grid.graph:build_grid", "args": [g], "kw": {}}
    ed = R(w.add("ed", {"k": "edges", "shape": [ni, nj]}))
    if x < 0.86:
        return {"fam": "e2g", "fn": "neutralocean.grid.graph:edges_to_graph", "args": [ed], "kw": r.choice([{}, {"N": ni * nj}])}
    if x < 0.92:
        return {"fam": "e2c", "fn": "neutralocean.grid.graph:edges_to_csr", "args": [ed], "kw": r.choice([{}, {"N": ni * nj + 1}])}
    if x < 0.97:
        E = (ni - 1) * nj + ni * (nj - 1)
        return {"fam": "div", "fn": "neutralocean.grid.tools:divergence", "args": [arr([E]), ed], "kw": r.choice([{}, {"distperp": 2.0}])}
    n = 3
    fc = R(w.add("fc", {"k": "faces"}))
    return {"fam": "xgcm", "fn": "neutralocean.grid.xgcm:build_grid", "args": [n, fc, T("tile", "j", "i"), r.choice(["left", "right"]), "left"], "kw": {k: arr([2, n, n]) for k in ("dxC", "dyC", "dyG", "dxG")}}


EOSFN = [("gsw", f) for f in ("specvol", "specvol_s_t", "specvol_p", "specvol_first_derivs", "specvol_second_derivs", "specvol_third_derivs", "specvol_s_t_ss_st_tt_sp_tp")] + [(m, f) for m in ("jmd95", "jmdfwg06") for f in ("rho", "rho_s_t", "rho_p")]


def f_low(w):
    """Building blocks called directly."""
    r = w.rng
    x = r.random()

    def arr(shape, lo=0.0, hi=1.0, k="rand", pre="lo", **kk):
        return R(w.add(pre, dict({"k": k, "seed": r.randrange(10**6), "lo": lo, "hi": hi, "shape": shape}, **kk)))

    if x < 0.25:
        m, f = r.choice(EOSFN)
        return {"fam": "eosfn", "fn": "neutralocean.eos.%s:%s" % (m, f), "args": [round(r.uniform(33, 36), 3), round(r.uniform(0, 20), 3), r.choice([0.0, 500.0, 3000.0])], "kw": {}}
    n, m = r.choice([4, 6]), r.choice([2, 4])
    if x < 0.5:
        pre = r.choice([[], [3], [2, 2]])
        X = arr(pre + [n], k="randsort")
        two = r.random() < 0.5
        Cs = [arr(pre + [n, m]) for _ in range(1 + two)]
        one = not pre and r.random() < 0.7
        nm = "ppval" + ("_1" if one else "") + ("_nonan" if one and r.random() < 0.5 else "") + ("_two" if two else "")
        return {"fam": "ppv", "fn": "neutralocean.ppinterp:" + nm, "args": [arr(pre) if pre and r.random() < 0.5 else 0.5, X] + Cs + [r.choice([0, 0, 1])], "kw": {}}
    if x < 0.6:
        return {"fam": "vr", "fn": "neutralocean.ppinterp:" + r.choice(["valid_range", "valid_range_1"]), "args": [arr([n], nan=[n - 1])], "kw": {}}
    if x < 0.7:
        return {"fam": "takef", "fn": "neutralocean.lib:take_fill", "args": [arr([6]), arr([5], -1, 6, k="irand")], "kw": {}}
    if x < 0.8:
        f = R(w.add("zf", {"k": "zerofn", "a": round(r.uniform(0.2, 0.8), 3)}))
        nm = r.choice(["brent", "guess_to_bounds", "brent_guess"])
        a = {"brent": [f, 0.0, 1.0, 1e-6], "guess_to_bounds": [f, 0.4, 0.0, 1.0], "brent_guess": [f, 0.4, 0.0, 1.0, 1e-6]}[nm]
        return {"fam": "fzero", "fn": "neutralocean.fzero:" + nm, "args": a, "kw": {}}
    hs = [r.choice([3, 4]), r.choice([2, 3])]
    ed = R(w.add("ed", {"k": "edges", "shape": hs}))
    return {"fam": "gbf", "fn": "neutralocean.grid.graph:graph_binary_fcn", "args": [ed, arr([hs[0] * hs[1]]), R(w.add("bf", {"k": "binfn"}))], "kw": {}}


def f_misc(w):
    r = w.rng
    x = r.random()
    if x < 0.3:
        oc = w.ocean()
        if w.objs[oc]["layout"] in ("xr", "dask"):
            oc = w.new_ocean(layout="nd")
        return {"fam": "ffn", "fn": "neutralocean.lib:find_first_nan", "args": [R(oc, i=0)], "kw": {}}
    if x < 0.6:
        a = w.add("va", {"k": "rand", "seed": r.randrange(10**6), "shape": [2, 3, 4]})
        return {"fam": "val_at", "fn": "neutralocean.lib:val_at", "args": [R(a), r.choice([0, 2, 3])], "kw": {}}
    if x < 0.8:
        return {"fam": "synth", "fn": "neutralocean.synthocean:synthocean", "args": [T(4, 3, 5)], "kw": r.choice([{}, {"SSSSa": 0.1}, {"wrap": T(True, False)}])}
    a = w.add("ag", {"k": "rand", "seed": r.randrange(10**6), "shape": [6]})
    b = w.add("ai", {"k": "irand", "seed": r.randrange(10**6), "shape": [6], "lo": -1, "hi": 3})
    return {"fam": "aggsum", "fn": "neutralocean.lib:aggsum", "args": [R(a), R(b), 3], "kw": {}}


BREAKABLE = ["potential", "potential", "anomaly", "anomaly", "omega", "omega", "omega", "mixed", "traj", "bottle", "veronis", "ntp", "unstable", "interp"]


def broken(w):
    """A call made wrong in one way that the library's own Python code meets."""
    r = w.rng
    op = FAMS[r.choice(BREAKABLE)][0](w)
    kw, args = op["kw"], op["args"]
    ch = [("args", 1, None)]
    if "vert_dim" in kw or op["fam"] in ("potential", "anomaly", "omega", "mixed", "traj"):
        ch += [("kw", "vert_dim", "nope"), ("kw", "vert_dim", "nope")]
    if "eos" in kw:
        ch += [("kw", "eos", "eos80"), ("kw", "eos", 3)]
    if "interp" in kw:
        ch += [("kw", "interp", "cubic")]
    if op["fam"] in ("potential", "anomaly"):
        ch += [("kw", "pin_cast", T(99, 99))] * 3 + [("kw", "pin_p", 900)] * 2 + [("kw", "ref", "a"), ("kw", "isoval", None), ("kw", "grid", None), ("kw", "grid", {"dist": 1.0})]
    if op["fam"] == "omega":
        bad = w.add("ap", {"k": "rand", "seed": r.randrange(10**6), "shape": [2, 9]})
        ch += [("args", 4, T(99, 99))] * 2 + [("args", 4, T(0, 0, 0)), ("args", 5, "a"), ("args", 5, R(bad)), ("args", 5, R(bad)), ("args", 5, 99999.0), ("args", 3, {"dist": 1.0}), ("args", 3, None), ("kw", "OMEGA_FORMULATION", "nope"), ("kw", "p_ml", {"nope": 1})]
    where, k, v = r.choice(ch)
    if where == "kw":
        kw[k] = v
        if k in ("pin_cast", "pin_p"):
            kw.setdefault("pin_p", 900.0)
            kw.setdefault("pin_cast", T(0, 0))
    elif k < len(args):
        args[k] = v
    op["fam"] = "bad"
    return op


def f_bad(w):
    """A call that is wrong and must fail, alike every time."""
    r = w.rng
    if r.random() < 0.7:
        return broken(w)
    oc = w.ocean()
    x = r.randrange(5)
    if x == 0:
        return {"fam": "bad", "fn": SURF + "potential_surf", "args": oc_args(oc), "kw": {"vert_dim": w.vert_dim(oc), "eos": "jmd95", "diags": False}}
    if x == 1:
        return {"fam": "bad", "fn": SURF + "omega_surf", "args": oc_args(oc) + [R(w.grid()), T(*w.pinc), 1000.0], "kw": {"vert_dim": w.vert_dim(oc), "eos": "jmd95", "OMEGA_FORMULATION": "nope"}}
    if x == 2:
        return {"fam": "bad", "fn": "neutralocean.eos.tools:make_eos", "args": [r.choice(["eos80", "GSW", "jmd"])], "kw": {}}
    if x == 3:
        return {"fam": "bad", "fn": SURF + "omega_surf", "args": oc_args(oc) + [R(w.grid()), T(*w.pinc), 99999.0], "kw": {"vert_dim": w.vert_dim(oc), "eos": "jmd95", "diags": False}}
    return {"fam": "bad", "fn": "neutralocean.ppinterp:make_pp", "args": [r.choice(["cubic", "spline"])], "kw": {}}


FAMS = {
    "potential": (lambda w: f_isopyc(w, "potential"), 4),
    "anomaly": (lambda w: f_isopyc(w, "anomaly"), 3),
    "omega": (f_omega, 6),
    "mixed": (f_mixed, 2),
    "traj": (f_traj, 2),
    "bottle": (f_bottle, 1.5),
    "veronis": (f_veronis, 1.5),
    "ntp": (f_ntp, 1.5),
    "unstable": (f_unstable, 1),
    "stabilize": (f_stabilize, 2),
    "interp": (f_interp, 2),
    "eos": (f_eos, 3),
    "grid": (f_grid, 2.5),
    "misc": (f_misc, 1),
    "low": (f_low, 1.5),
}


def gen_op(w, fams=None, bad=0.0):
    r = w.rng
    if bad and r.random() < bad:
        return f_bad(w)
    names = fams or list(FAMS)
    wt = [FAMS[n][1] for n in names]
    n = r.choices(names, wt)[0]
    return FAMS[n][0](w)


def used(op):
    from .child import refs_in

    out = set()
    refs_in(op.get("args", []), out)
    refs_in(op.get("kw", {}), out)
    refs_in(op.get("vals", []), out)
    if "op" in op and isinstance(op["op"], dict):
        out |= used(op["op"])
    return out


NM_KW = {
    ("ITER_START_WETTING", "omega"): [1, 2, 3],
    ("ITER_STOP_WETTING", "omega"): [5, 0, 1, 2],
    ("TOL_LRPD_MAV", "omega"): [1e-7, 0.0, 1e-3],
    ("ITER_WET_PERIM", "omega"): [2, 1],
    ("diags", "omega"): [True, False],
    ("output", "omega"): [True, False],
    ("pot_dens_diff", "mixed"): [0.03, 0.1, 0.3],
    ("ref_p", "mixed"): [100.0, 0.0, 200.0],
    ("bottle_index", "mixed"): [1, 0, 2],
    ("dp", "veronis"): [50.0, 100.0, 200.0],
    ("p0", "veronis"): [0.0, 100.0, 2000.0],
    ("p_ref", "veronis"): [0.0, 1000.0],
    ("b", "veronis"): [1.0, 2.0],
    ("tol_p", "traj"): [1e-4, 1e-2, 1e-6],
    ("tol_p", "bottle"): [1e-4, 1e-2, 1e-6],
    ("weight", "stabilize"): [10.0, 1.0, 30.0],
    ("min_dLRPDdp", "stabilize"): [1e-6, 1e-5, 1e-7],
    ("verbose", "stabilize"): [True, False],
    ("options", "stabilize"): [{"maxiter": 1000}, {"maxiter": 1}, {"maxiter": 3}, {"ftol": 1e-3}],
    ("tol", "stabilize"): [1e-10, 1e-6],
}


def near_miss(w, op):
    """The same call with one thing different."""
    r = w.rng
    op = copy.deepcopy(op)
    kw = op["kw"]
    ch = []
    s_t = op["fam"] in ("omega", "veronis") or (op["fam"] in ("potential", "anomaly") and kw.get("diags", True))
    if "eos" in kw and op["fam"] != "unstable":
        ch += ["eos", "eos", "grav", "rho_c"]
    if op["fam"] in ("eos", "vec"):
        ch += ["factory", "grav", "rho_c", "name"]
    if op["fam"] == "ntp":
        ch += ["grav", "rho_c", "ntpeos"]
    if "interp" in kw:
        ch.append("interp")
    if op["fam"] in ("potential", "anomaly", "omega", "mixed", "unstable"):
        ch += ["ocean"] * 3
    if "grid" in kw or op["fam"] == "omega":
        ch.append("grid")
    if op["fam"] == "omega":
        ch += ["form", "iters", "pinit"]
    if "pin_p" in kw:
        ch.append("pin_p")
    if "TOL_P_SOLVER" in kw or op["fam"] in ("potential", "omega"):
        ch.append("tol")
    if op["fam"] in ("ppval",):
        ch.append("ppkind")
    if op["fam"] in ("coeffs", "interp", "interp2"):
        ch.append("ppfn")
    if op["fam"] == "rect":
        ch.append("per")
    if op["fam"] in ("potential", "anomaly"):
        ch += ["ref", "kind"]
    for k, fam in NM_KW:
        if op["fam"] == fam:
            ch.append("kw:" + k)
    if op["fam"] in ("traj", "bottle", "veronis"):
        ch += ["where", "cast"]
    if not ch:
        return gen_op(w)
    c = r.choice(ch)
    if c == "eos":
        for k in ("eos", "grav", "rho_c"):
            kw.pop(k, None)
        kw.update(w.eos("s_t" if s_t else "fn"))
    elif c in ("grav", "rho_c"):
        if kw.get(c) is None:
            kw["grav"], kw["rho_c"] = 9.81, 1027.5
        else:
            kw[c] = r.choice([x for x in ([9.81, 9.8, 3.7] if c == "grav" else [1027.5, 1035.0, 1000.0]) if x != kw[c]])
    elif c == "name":
        if isinstance(op["args"][0], str):
            op["args"][0] = r.choice([x for x in ("gsw", "jmd95", "jmdfwg06") if x != op["args"][0]])
    elif c == "ntpeos":
        kw["eos_s_t"] = r.choice([x for x in ("gsw", "jmd95", "jmdfwg06") if x != kw["eos_s_t"]])
    elif c == "factory":
        f = ["make_eos", "make_eos_p"] + (["make_eos_s_t"] if op["fam"] == "eos" else [])
        if isinstance(op["args"][0], str):
            op["factory"] = "neutralocean.eos.tools:" + r.choice(f)
    elif c == "interp":
        kw["interp"] = "pchip" if kw["interp"] == "linear" else "linear"
    elif c == "ppkind":
        kw["interpolant"] = "pchip" if kw["interpolant"] == "linear" else "linear"
    elif c == "ppfn":
        a, b = ("linear", "pchip") if "linear" in op["fn"] else ("pchip", "linear")
        op["fn"] = op["fn"].replace(a, b)
    elif c == "ocean":
        old = op["args"][0]["$"]
        d = copy.deepcopy(w.objs[old])
        x = r.random()
        if x < 0.5:
            d["seed"] += 1
        elif x < 0.8:
            d["edits"] = d.get("edits", []) + [r.choice([{"what": "T", "f": 1.01}, {"what": "S", "f": 0.02}, {"what": "land", "i": r.randrange(1, 60)}, {"what": "land", "i": r.randrange(1, 60)}])]
        else:
            d["amp"] = d.get("amp", 1.0) * 1.5
        nm = w.add("oc", d)
        w.oceans.append(nm)
        for i in range(3):
            op["args"][i] = R(nm, i=i)
    elif c == "grid":
        g = R(w.new_grid())
        if op["fam"] == "omega":
            op["args"][3] = g
        else:
            kw["grid"] = g
    elif c == "form":
        kw["OMEGA_FORMULATION"] = "poisson" if kw.get("OMEGA_FORMULATION", "poisson").lower() == "gradient" else "gradient"
    elif c == "iters":
        kw["ITER_MAX"] = kw["ITER_MAX"] + 1
    elif c == "pinit":
        op["args"][5] = 1200.0
    elif c == "pin_p":
        kw["pin_p"] = kw["pin_p"] + 100.0
    elif c == "tol":
        kw["TOL_P_SOLVER"] = 1e-3 if kw.get("TOL_P_SOLVER") != 1e-3 else 1e-5
    elif c.startswith("kw:"):
        k = c[3:]
        v = NM_KW[k, op["fam"]]
        kw[k] = r.choice([x for x in v if x != kw.get(k, v[0])] or v)
        if k == "min_dLRPDdp" and isinstance(kw[k], dict):
            kw[k] = 1e-5
    elif c == "where":
        i = {"traj": 3, "bottle": 2, "veronis": 0}[op["fam"]]
        op["args"][i] = op["args"][i] + 50.0
    elif c == "cast":
        i0 = {"traj": 0, "bottle": 3, "veronis": 1}[op["fam"]]
        d = copy.deepcopy(w.objs[op["args"][i0]["$"]])
        d["seed"] += 1
        nm = w.add("ca", d)
        for j in range(3):
            op["args"][i0 + j] = dict(op["args"][i0 + j], **{"$": nm})
    elif c == "ref":
        if op["fam"] == "potential":
            kw["ref"] = 1500.0 if kw.get("ref") == 1000.0 else 1000.0
        else:
            kw["ref"] = T(34.7, 5.0) if kw.get("ref") != T(34.7, 5.0) else T(34.8, 5.0)
    elif c == "kind":
        if "pin_p" in kw:
            kw.pop("ref", None)
            op["fam"] = "anomaly" if op["fam"] == "potential" else "potential"
            op["fn"] = SURF + op["fam"] + "_surf"
    elif c == "per":
        a, b = op["args"][1]["$t"]
        op["args"][1] = T(not a, b)
    return op


def key(op, descs):
    return json.dumps([op, descs], sort_keys=True)
