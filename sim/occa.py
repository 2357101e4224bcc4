"""The dataset loader's world: a simulated server, disk and set of processes.

Each "life" is one process (forked), in which one or more clients (threads, run
one at a time) load the dataset one or more times.  The cache directory is a real
scratch directory that outlives a life; a crash tears what the life wrote."""
import builtins
import errno
import gc
import hashlib
import io
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import threading
import time

import numpy as np

from . import child, world

PUBLISHED = {
    "salt": "184ca879e0ed18a078f31160c16ec078701e0f1af4d6de44bd1e70cc200d111c",
    "theta": "7fcef4663439e34b13de4b08a373a0e17b83bee2c621ea8ac07a8175fe15368e",
}
DOI = {"VREV1Z": "salt", "APHURG": "theta"}
_mono = time.monotonic
_GEN = {}
_r_open, _r_rename, _r_replace, _r_fsync = io.open, os.rename, os.replace, os.fsync


def genuine():
    """name -> (bytes, array); the stand-ins for the two published files."""
    if _GEN:
        return _GEN
    import xarray as xr

    nx, ny, nz, nt = 6, 5, 4, 2
    for i, name in enumerate(("salt", "theta")):
        rng = np.random.default_rng(100 + i)
        a = rng.uniform(30 + i, 36 + i, (nt, nz, ny, nx)).astype(np.float32)
        a[:, 2:, 1, 2] = np.nan
        a[:, :, 3, 4] = np.nan
        co = {
            "Time": np.arange(nt) * 1.0,
            "Depth_c": np.array([5.0, 50.0, 500.0, 2000.0]),
            "Latitude_t": np.arange(ny) * 1.0 - 2.0,
            "Longitude_t": np.arange(nx) * 1.0 + 0.5,
            "Longitude_u": np.arange(nx) * 1.0,
            "Latitude_v": np.arange(ny) * 1.0 - 2.5,
        }
        ds = xr.Dataset({name: (("Time", "Depth_c", "Latitude_t", "Longitude_t"), a, {"units": "u" + name})}, coords=co)
        fd, p = tempfile.mkstemp(suffix=".nc")
        os.close(fd)
        try:
            ds.to_netcdf(p, format="NETCDF3_CLASSIC", engine="scipy")
            with open(p, "rb") as f:
                b = f.read()
        finally:
            os.unlink(p)
        _GEN[name] = (b, a)
    # import and set up once, before forking
    import pooch
    import requests.adapters
    import urllib.request

    import neutralocean.examples.load_OCCA

    fd, p = tempfile.mkstemp()
    with os.fdopen(fd, "wb") as f:
        f.write(_GEN["salt"][0])
    try:
        xr.open_dataset(p).load().close()
    finally:
        os.unlink(p)
    return _GEN


# ------------------------------------------------------------------ hashing
class Hash:
    """sha256, with the stand-ins hashing to the published values."""

    def __init__(self, data=b"", **k):
        self.h = _real_sha(data)
        self.name, self.digest_size, self.block_size = "sha256", 32, 64

    def update(self, b):
        self.h.update(b)

    def copy(self):
        o = Hash()
        o.h = self.h.copy()
        return o

    def hexdigest(self):
        x = self.h.hexdigest()
        return MAP.get(x, x)

    def digest(self):
        return bytes.fromhex(self.hexdigest())


_real_sha = hashlib.sha256
_real_new = hashlib.new
MAP = {}


def patch_hash():
    for n, (b, _) in genuine().items():
        MAP[_real_sha(b).hexdigest()] = PUBLISHED[n]

    def new(name, data=b"", **k):
        return Hash(data) if str(name).lower() in ("sha256", "sha-256") else _real_new(name, data, **k)

    hashlib.sha256 = Hash
    hashlib.new = new
    import pooch.hashes

    pooch.hashes.ALGORITHMS_AVAILABLE["sha256"] = Hash


# ------------------------------------------------------------------ one life
class Crash(BaseException):
    pass


class Life:
    def __init__(self, spec, root, outfd):
        self.spec, self.root, self.outfd = spec, root, outfd
        self.rng = random.Random(spec["seed"])
        self.sems, self.ids, self.alive = [], {}, []
        self.cur = 0
        self.load = [0] * len(spec["clients"])
        self.count = {}
        self.total = 0
        self.fired = []
        self.written = {}  # path -> length known durable
        self.reqs = []
        self.switches = 0
        self.trace = hashlib.sha1()
        self.out = [[] for _ in spec["clients"]]
        self.escaped = []
        self.simtime = 0.0
        self.dead = False

    # ---- events
    def me(self):
        return self.ids.get(threading.get_ident())

    def event(self, kind, detail=""):
        """A point where the world may act; returns the fault to apply, if any."""
        c = self.me()
        if c is None or self.dead:
            return None
        self.switch(c)
        key = (c, self.load[c], kind)
        n = self.count[key] = self.count.get(key, -1) + 1
        akey = (c, self.load[c], "any")
        an = self.count[akey] = self.count.get(akey, -1) + 1
        self.total += 1
        hit = None
        for f in self.spec["faults"]:
            if f["client"] == c and f["load"] == self.load[c] and not f.get("_f") and ((f["on"] == kind and f["n"] == n) or (f["on"] == "any" and f["n"] == an)):
                f["_f"] = 1
                self.fired.append((c, self.load[c], f["do"], kind, n))
                self.trace.update(repr((c, self.load[c], f["do"], kind, n)).encode())
                hit = f
                break
        if hit is None:
            return None
        do = hit["do"]
        if do == "crash":
            self.crash()
        if do == "KeyboardInterrupt":
            raise KeyboardInterrupt("sim")
        if do == "MemoryError":
            raise MemoryError("sim")
        if do == "stall":
            self.simtime += hit.get("dt", 60.0)
            return None
        return hit

    def switch(self, c):
        others = [i for i in self.alive if i != c]
        if others and self.rng.random() < self.spec.get("pswitch", 0.0):
            self.go(c, self.rng.choice(others))

    def go(self, c, to):
        self.switches += 1
        self.trace.update(b"%d>%d@%d" % (c, to, self.total))
        self.sems[to].release()
        self.sems[c].acquire()

    def crash(self):
        """Power loss: what this life wrote and did not sync may be torn."""
        self.dead = True
        r = random.Random(self.spec["seed"] + 1)
        for p in sorted(self.written, key=lambda p: self.written[p][0]):
            if not os.path.exists(p):
                continue
            n = os.path.getsize(p)
            k = r.choice(["keep", "keep", "cut", "zero", "zero", "empty"])
            if k == "cut":
                os.truncate(p, r.randrange(n + 1))
            elif k == "empty":
                os.truncate(p, 0)
            elif k == "zero" and n:
                m = r.randrange(n)
                with _r_open(p, "r+b") as f:
                    f.seek(m)
                    f.write(b"\0" * (n - m))
            self.fired.append((0, 0, "torn:" + k, "crash", 0))
        self.report(crashed=True)
        os._exit(0)

    def report(self, crashed=False):
        data = pickle.dumps({"out": self.out, "fired": self.fired, "reqs": self.reqs, "crashed": crashed, "events": self.total, "switches": self.switches, "trace": self.trace.hexdigest()[:16], "escaped": self.escaped, "simtime": self.simtime, "count": self.count})
        data = struct.pack("<Q", len(data)) + data
        while data:
            data = data[os.write(self.outfd, data):]

    # ---- disk
    def inside(self, p):
        try:
            return os.path.abspath(os.fspath(p)).startswith(self.root + os.sep)
        except TypeError:
            return False

    def open(self, file, mode="r", *a, **k):
        if isinstance(file, int) or self.me() is None:
            return _r_open(file, mode, *a, **k)
        w = any(x in mode for x in "wax+")
        if not self.inside(file):
            if w and not str(file).startswith(("/dev/", "/proc/")):
                self.escaped.append(str(file))
                raise PermissionError(errno.EACCES, "simulated: outside the sandbox", str(file))
            return _r_open(file, mode, *a, **k)
        if os.path.isdir(file):  # tempfile names a directory and opens a file in it
            return _r_open(file, mode, *a, **k)
        f = self.event("open_w" if w else "open_r", file)
        if f:
            raise OSError(getattr(errno, f["do"], errno.EIO), "simulated", str(file))
        fh = _r_open(file, mode, *a, **k)
        if "b" not in mode:
            return fh
        if w:
            self.written.setdefault(os.path.abspath(os.fspath(file)), [len(self.written)])
        return sim_file(self, fh, os.path.abspath(os.fspath(file)))

    def rename(self, real):
        def f(src, dst, **k):
            if self.me() is None or not self.inside(dst):
                return real(src, dst, **k)
            h = self.event("rename", dst)
            if h and h["do"] != "crash_after":
                raise OSError(getattr(errno, h["do"], errno.EACCES), "simulated", str(src))
            real(src, dst, **k)
            s, d = os.path.abspath(os.fspath(src)), os.path.abspath(os.fspath(dst))
            if s in self.written:
                self.written[d] = self.written.pop(s)
            if h:
                self.crash()

        return f

    # ---- network
    def send(self, adapter, request, **k):
        import requests
        from urllib3 import HTTPResponse
        from urllib3._collections import HTTPHeaderDict

        name = next((v for d, v in DOI.items() if d in request.url), None)
        c = self.me()
        self.reqs.append((c, self.load[c] if c is not None else None, name, request.method))
        f = self.event("connect", name)
        do = f["do"] if f else None
        if do == "ConnectionError":
            raise requests.exceptions.ConnectionError("simulated", request=request)
        if do == "Timeout":
            raise requests.exceptions.ConnectTimeout("simulated", request=request)
        if do == "ReadTimeout":
            raise requests.exceptions.ReadTimeout("simulated", request=request)
        body = genuine()[name][0] if name else b""
        status, length = (200 if name else 404), True
        if f:
            r = random.Random(f.get("r", 0))
            if do.startswith("HTTP"):
                status, body = int(do[4:]), b"<html>error</html>"
            elif do == "html":
                body = b"<html>please log in</html>"
            elif do == "flip":
                i = r.randrange(len(body))
                body = body[:i] + bytes([body[i] ^ (1 << r.randrange(8))]) + body[i + 1:]
            elif do == "flipdata":
                i = len(body) - 1 - r.randrange(400)
                body = body[:i] + bytes([body[i] ^ (1 << r.randrange(8))]) + body[i + 1:]
            elif do == "cut":
                body, length = body[: r.randrange(len(body))], False
            elif do == "cutdata":
                body, length = body[: len(body) - 1 - r.randrange(200)], False
            elif do == "short":
                length = len(body)
                body = body[: r.randrange(len(body))]
            elif do == "empty":
                body = b""
            elif do == "swap":
                body = genuine()["theta" if name == "salt" else "salt"][0]
            elif do == "longer":
                body = body + b"\0" * 512
            elif do == "zeros":
                i = r.randrange(len(body) // 2, len(body))
                body = body[:i] + b"\0" * (len(body) - i)
        h = HTTPHeaderDict({"content-type": "application/x-netcdf"})
        if length:
            h["content-length"] = str(length if length is not True else len(body))
        raw = HTTPResponse(body=Body(self, body), headers=h, status=status, preload_content=False, decode_content=False, enforce_content_length=True, request_method=request.method)
        return adapter.build_response(request, raw)

    # ---- clients
    def client(self, c):
        self.ids[threading.get_ident()] = c
        self.sems[c].acquire()
        try:
            for k in range(self.spec["clients"][c]):
                self.load[c] = k
                n0 = len(self.reqs)
                rec = {}
                try:
                    fn = child.lookup("neutralocean.examples.load_OCCA:load_OCCA")
                    r = fn()
                    rec = {"status": "ok", "value": world.freeze(r)}
                    child._poison_result(r)
                    del r
                except BaseException as e:
                    rec = {"status": "exc", "exc": type(e).__name__, "msg": str(e)[:300], "ki": isinstance(e, KeyboardInterrupt)}
                    e.__traceback__ = None
                    del e
                rec["reqs"] = [q for q in self.reqs if q[0] == c and q[1] == k]
                rec["fired"] = [f for f in self.fired if f[0] == c and f[1] == k]
                if len(self.alive) == 1:
                    gc.collect()
                    rec["open"] = self.openfiles()
                self.out[c].append(rec)
        finally:
            self.alive.remove(c)
            del self.ids[threading.get_ident()]
            if self.alive:
                self.sems[self.rng.choice(self.alive)].release()
            else:
                self.done.release()

    def openfiles(self):
        out = []
        for fd in os.listdir("/proc/self/fd"):
            try:
                p = os.readlink("/proc/self/fd/" + fd)
            except OSError:
                continue
            if p.startswith(self.root + os.sep):
                out.append(os.path.relpath(p, self.root)[-40:])
        return sorted(out)

    def run(self):
        import requests.adapters

        builtins.open = io.open = self.open
        os.rename, os.replace = self.rename(_r_rename), self.rename(_r_replace)
        shutil._USE_CP_SENDFILE = False
        life = self
        requests.adapters.HTTPAdapter.send = lambda a, request, **k: life.send(a, request, **k)
        import urllib.request

        def urlopen(*a, **k):
            raise OSError("simulated: no network")

        urllib.request.urlopen = urlopen
        time.sleep = lambda dt: setattr(life, "simtime", life.simtime + dt)
        self.done = threading.Semaphore(0)
        self.alive = list(range(len(self.spec["clients"])))
        self.sems = [threading.Semaphore(0) for _ in self.alive]
        ts = [threading.Thread(target=self.client, args=(c,), daemon=True) for c in list(self.alive)]
        for t in ts:
            t.start()
        self.sems[self.rng.choice(self.alive)].release()
        self.done.acquire()
        self.report()
        os._exit(0)


def _hooked(base):
    class F(base):
        """A binary file on the simulated disk."""

        def _hit(self, kind):
            h = self.life.event(kind, self.path)
            return h and OSError(getattr(errno, h["do"], errno.EIO), "simulated", self.path)

        def write(self, b):
            e = self._hit("write")
            if e:
                super().write(bytes(b)[: len(b) // 2])
                raise e
            return super().write(b)

        def read(self, *a):
            e = self._hit("read")
            if e:
                raise e
            return super().read(*a)

        def readinto(self, b):
            e = self._hit("read")
            if e:
                raise e
            return super().readinto(b)

    return F


_FILES = {k: _hooked(k) for k in (io.BufferedReader, io.BufferedWriter, io.BufferedRandom)}


def sim_file(life, fh, path):
    if type(fh) not in _FILES:
        return fh
    cls = _FILES[type(fh)]
    f = cls(fh.detach())
    f.life, f.path = life, path
    return f


class Body(io.BytesIO):
    """A response body that arrives in pieces."""

    def __init__(self, life, b):
        super().__init__(b)
        self.life = life

    def read(self, *a):
        f = self.life.event("chunk")
        if f:
            from urllib3.exceptions import ProtocolError, ReadTimeoutError

            if f["do"] == "ReadTimeout":
                raise ReadTimeoutError(None, "", "simulated")
            raise ProtocolError("simulated: connection broken")
        return super().read(*a)


def run_life(spec, root, timeout=60.0):
    """Fork one process of the simulated machine."""
    genuine()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            nul = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(nul, fd)
            import logging

            logging.disable(logging.CRITICAL)
            home = os.path.join(root, "home")
            os.makedirs(home, exist_ok=True)
            os.makedirs(os.path.join(root, "tmp"), exist_ok=True)
            os.chdir(home)
            for k in list(os.environ):
                if k.startswith(("XDG_", "POOCH", "APPDATA", "TMP", "TEMP")):
                    del os.environ[k]
            os.environ["HOME"] = home
            os.environ["XDG_CACHE_HOME"] = os.path.join(root, "cache")
            os.environ["TMPDIR"] = os.path.join(root, "tmp")
            tempfile.tempdir = None
            patch_hash()
            gc.freeze()
            Life(spec, root, w).run()
        except BaseException:
            import traceback

            data = pickle.dumps({"error": traceback.format_exc()[-1500:]})
            os.write(w, struct.pack("<Q", len(data)) + data)
        finally:
            os._exit(3)
    os.close(w)
    buf, end = b"", _mono() + timeout
    while True:
        rd, _, _ = select.select([r], [], [], max(0.0, end - _mono()))
        if not rd:
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf += b
    os.close(r)
    try:
        os.kill(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    os.waitpid(pid, 0)
    if len(buf) < 8 or len(buf) < 8 + struct.unpack("<Q", buf[:8])[0]:
        return {"error": "no answer (hang or death) from a life"}
    return pickle.loads(buf[8:])


def cached_files(root):
    """The files of the cache, in a stable order (by content)."""
    out = []
    for d, _, fs in os.walk(os.path.join(root, "cache")):
        for f in fs:
            p = os.path.join(d, f)
            with _r_open(p, "rb") as fh:
                out.append((f[-6:] != ".tmp", f.split("-", 1)[-1] if "-" in f else f, p, fh.read()))
    return sorted(out, key=lambda x: (x[0], len(x[3]), x[3]))


def damage(root, e):
    """Something happens to the cache while no process runs."""
    r = random.Random(e["r"])
    fs = cached_files(root)
    if not fs:
        return 0
    for _, _, p, b in ([r.choice(fs)] if e["which"] == "one" else fs):
        k = e["do"]
        if k == "delete":
            os.unlink(p)
        elif k == "flip" and b:
            i = r.randrange(len(b))
            b = b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:]
        elif k == "flipdata" and b:
            i = max(0, len(b) - 1 - r.randrange(400))
            b = b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:]
        elif k == "cut":
            b = b[: r.randrange(len(b) + 1)]
        elif k == "cutdata":
            b = b[: max(0, len(b) - 1 - r.randrange(200))]
        elif k == "zeros":
            i = r.randrange(len(b) + 1)
            b = b[:i] + b"\0" * (len(b) - i)
        elif k == "empty":
            b = b""
        elif k == "append":
            b = b + b"junk"
        elif k == "swap":
            g = genuine()
            b = g["theta"][0] if b == g["salt"][0] else g["salt"][0]
        if k != "delete":
            st = os.stat(p)
            with _r_open(p, "wb") as fh:
                fh.write(b)
            if e.get("mtime"):  # silent corruption keeps the timestamps
                os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
    if e["do"] == "delete" and e.get("dir"):
        shutil.rmtree(os.path.join(root, "cache"))
    return 1
