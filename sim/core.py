"""The simulator: one token, real threads parked and released one at a time.

Every choice is read from the scenario (a JSON value): who runs next, at which
step, which fault fires where, what the clock says, what uninitialised memory
holds.  Nothing here draws random numbers or reads a real clock.
"""
import _thread
import ast
import hashlib
import os
import sys
import types

import numpy as np

get_ident = _thread.get_ident
TOOL = 4
E = sys.monitoring.events

LINE_KINDS = ("interrupt", "lstall", "nested")
CUR = None  # the running Sim, or None


class SimHang(BaseException):
    """Raised inside a client that exceeded its work budget."""


class InjectedError(Exception):
    """An application-level failure planted by the simulator (user eos, solver)."""


def make_exc(name, tag):
    if name == "KeyboardInterrupt":
        e = KeyboardInterrupt("sim:" + tag)
    elif name == "SystemExit":
        e = SystemExit("sim:" + tag)
    elif name == "MemoryError":
        e = MemoryError("sim:" + tag)
    elif name == "ENOSPC":
        e = OSError(28, "sim:" + tag)
    elif name == "EPIPE":
        e = BrokenPipeError(32, "sim:" + tag)
    elif name == "EIO":
        e = OSError(5, "sim:" + tag)
    elif name == "ValueError":
        e = ValueError("sim:" + tag)
    elif name == "TypeError":
        e = TypeError("sim:" + tag)
    elif name == "KeyError":
        e = KeyError("sim:" + tag)
    elif name == "AttributeError":
        e = AttributeError("sim:" + tag)
    elif name == "IndexError":
        e = IndexError("sim:" + tag)
    elif name == "RuntimeError":
        e = RuntimeError("sim:" + tag)
    elif name == "FloatingPointError":
        e = FloatingPointError("sim:" + tag)
    elif name == "ZeroDivisionError":
        e = ZeroDivisionError("sim:" + tag)
    elif name == "LinAlgError":
        e = np.linalg.LinAlgError("sim:" + tag)
    elif name == "UnicodeEncodeError":
        e = UnicodeEncodeError("ascii", "x", 0, 1, "sim:" + tag)
    elif name == "BlockingIOError":
        e = BlockingIOError(11, "sim:" + tag)
    elif name == "TimeoutError":
        e = TimeoutError("sim:" + tag)
    else:
        e = InjectedError("sim:" + tag)
    e._sim_injected = tag
    return e


def injected_in_chain(e):
    """Is an injected exception e itself, or somewhere in its cause/context chain?"""
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x is None or id(x) in seen:
            continue
        seen.add(id(x))
        if getattr(x, "_sim_injected", None) is not None:
            return True
        if isinstance(x, BaseExceptionGroup):
            todo.extend(x.exceptions)
        todo.append(x.__cause__)
        todo.append(x.__context__)
    return False


def repo_stack():
    """(file, function) of the library frames now on the stack, outermost first."""
    out = []
    f = sys._getframe(1)
    while f is not None:
        fn = f.f_code.co_filename
        if "neutralocean" in fn:
            out.append((fn.rsplit("/", 1)[-1], f.f_code.co_name))
        f = f.f_back
    return out[::-1]


class Client:
    def __init__(self, sim, cid, program):
        self.sim = sim
        self.cid = cid
        self.program = program  # list of ops
        self.ident = None
        self.depth = 0  # kernel nesting
        self.lsteps = 0  # Python-level steps within the current op
        self.kcalls = 0  # kernel calls within the current op
        self.ecalls = {}  # external calls (solver, minimizer, ...) in current op
        self.writes = 0  # stdout writes in the current op
        self.clkreads = 0
        self.nops = 0
        self.knext = 1 << 62
        self.lnext = 1 << 62
        self.inext = 1 << 62
        self.faults = []
        self.armed = []
        self.out = []
        self.done = False
        self.blocked = None
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.fired = []
        self.isteps = 0  # bytecode steps within the current op
        self.nogil = False
        self.plan = {}  # kind of step -> [(step, target), ...] still to come
        self.lplan = self.iplan = 1 << 62
        self.sites = None


class Sim:
    def __init__(self, sc, execute_op):
        self.sc = sc
        self.execute_op = execute_op
        self.clients = [Client(self, i, p) for i, p in enumerate(sc["clients"])]
        self.cur = None
        self.gsteps = 0
        self.preempt = sc.get("preempt", [])  # [client, op, kind of step, step, target]
        self.preempted = 0
        self.end_order = list(sc.get("end_order", []))
        self.trace = hashlib.sha1()
        self.switches = 0
        self.switch_sites = []
        self.events = []
        self.fired = []
        self.budget = int(sc.get("budget", 2_000_000))
        self.work = 0
        self.now = float(sc.get("clock", {}).get("start", 1_600_000_000.0))
        self.clock_prog = list(sc.get("clock", {}).get("reads", []))
        self.clock_rate = float(sc.get("clock", {}).get("per_read", 0.0))
        self.nreads = 0
        self.stalled = 0.0
        self.stalls = []
        self.prange_seed = sc.get("prange", 0)
        self.poison = sc.get("poison", 0)
        self.npoison = 0
        self.main_gate = _thread.allocate_lock()
        self.main_gate.acquire()
        self.fatal = None
        self.observers = []
        self.watch = None
        self.nthreads = 0
        self.nested = []
        self.after_op = None
        self.thread_init = lambda sc: None

    # ---------------------------------------------------------------- running
    def run(self):
        global CUR
        for c in self.clients:
            _thread.start_new_thread(self._client_main, (c,))
        CUR = self
        # park until every client thread registered itself
        while any(c.ident is None for c in self.clients):
            _real_sleep(0.0)
        first = self.sc.get("first", 0) % len(self.clients)
        self.cur = self.clients[first]
        self.cur.gate.release()
        mark = (-1, -1, 0.0)
        while not self.main_gate.acquire(True, 1.0):
            # A loop that makes no event never reaches the work budget.  It is ended once the process
            # has spent RUNAWAY seconds of processor time (which the load of the machine does not
            # change) without one event; ordinary calls make thousands of events per second.
            cpu = _real_cpu()
            if (self.work, self.gsteps) != mark[:2]:
                mark = (self.work, self.gsteps, cpu)
            elif cpu - mark[2] > RUNAWAY:
                from . import child, shim

                if shim.LANE == "interp":
                    c = self.cur
                    child.emergency(self, "hang", "client %d op %d loops without calling anything" % (c.cid, c.nops))
        CUR = None
        if self.fatal:
            raise self.fatal

    def _client_main(self, c):
        c.ident = get_ident()
        c.gate.acquire()
        try:
            self.thread_init(self.sc)
            while c.program and c.nops < len(c.program):
                op = c.program[c.nops]
                self._begin_op(c, op)
                try:
                    self.execute_op(self, c, op)
                finally:
                    self._end_op(c)
                if self.after_op is not None:
                    self.after_op(self, c)
                c.nops += 1
        except BaseException as e:  # harness error
            self.fatal = e
        c.done = True
        self._hand_over(c)

    def _begin_op(self, c, op):
        c.lsteps = c.kcalls = c.writes = c.clkreads = c.isteps = 0
        c.ecalls = {}
        c.plan = {}
        for cid, o, kind, at, tgt in self.preempt:
            if cid == c.cid and o == c.nops:
                c.plan.setdefault(kind, []).append((at, tgt))
        for v in c.plan.values():
            v.sort(reverse=True)
        c.lplan = c.plan["l"][-1][0] if "l" in c.plan else 1 << 62
        c.iplan = c.plan["i"][-1][0] if "i" in c.plan else 1 << 62
        if self.sc.get("sites"):
            c.sites = []
        c.depth = 0
        c.fired = []
        c.faults = [f for f in self.sc.get("faults", []) if f["client"] == c.cid and f["op"] == c.nops]
        c.lnext = min([f["at"] for f in c.faults if f["kind"] in LINE_KINDS], default=1 << 62)
        c.inext = min([f["at"] for f in c.faults if f["kind"] == "inested"], default=1 << 62)
        c.knext = min([f["at"] for f in c.faults if f["kind"] in ("kernel", "kstall")], default=1 << 62)
        self.events.append((self.gsteps, c.cid, "begin", c.nops))

    def _end_op(self, c):
        self.events.append((self.gsteps, c.cid, "end", c.nops))
        c.depth = 0
        c.lnext = c.knext = c.inext = c.lplan = c.iplan = 1 << 62
        c.plan = {}

    def _hand_over(self, c):
        """c finished (or blocks): let another runnable client go."""
        nxt = self._pick(c)
        if nxt is None:
            live = [x for x in self.clients if not x.done]
            if live:
                self.deadlock(live)
            self.main_gate.release()
            return
        self.switches += 1
        self.trace.update(b"|%d>%d@%d" % (c.cid, nxt.cid, self.gsteps))
        self.cur = nxt
        nxt.gate.release()

    def _pick(self, c):
        run = [x for x in self.clients if not x.done and x.blocked is None and x is not c]
        if not run:
            return None
        if self.end_order:
            k = self.end_order.pop(0)
        else:
            k = 0
        return run[k % len(run)]

    def deadlock(self, live):
        from . import child
        child.emergency(self, "deadlock", "clients %s blocked for ever" % [x.cid for x in live])

    # ---------------------------------------------------------------- steps
    def step(self, c, code, line):
        self.gsteps += 1
        c.lsteps += 1
        if c.sites is not None:
            c.sites.append((code.co_name, line))
        if c.lsteps >= c.lplan:
            c.lplan = self._preempt(c, "l", c.lsteps, "%s:%d" % (code.co_name, line))
        if c.lsteps >= c.lnext:
            self._line_fault(c, code, line)
        if self.watch is not None:
            self.watch(self, c, code, line)
        self.work += 1
        if self.work > self.budget:
            self.hang(c)

    def hang(self, c):
        from . import child
        child.emergency(self, "hang", "client %d op %d exceeded the work budget %d" % (c.cid, c.nops, self.budget))

    def _preempt(self, c, kind, at, site):
        """Give the token away, if the plan says so; return when to come back here."""
        pl = c.plan.get(kind)
        tgt = None
        while pl and pl[-1][0] <= at:
            tgt = pl.pop()[1]
        nxt_at = pl[-1][0] if pl else 1 << 62
        if tgt is not None:
            run = [x for x in self.clients if not x.done and x.blocked is None and x is not c]
            if run:
                self.preempted += 1
                self.switch_to(c, run[tgt % len(run)], site)
        return nxt_at

    def switch_to(self, c, nxt, site):
        self.switches += 1
        self.switch_sites.append(site)
        self.trace.update(("|%d>%d@%d:%s" % (c.cid, nxt.cid, self.gsteps, site)).encode())
        self.cur = nxt
        nxt.gate.release()
        c.gate.acquire()

    def _line_fault(self, c, code, line):
        masked = line in masked_lines(code)
        for f in c.faults:
            if f["kind"] in LINE_KINDS and f["at"] <= c.lsteps and not f.get("_fired"):
                if masked and f["kind"] == "interrupt":
                    continue  # deferred to the next deliverable point
                f["_fired"] = True
                rest = [g["at"] for g in c.faults if g["kind"] in LINE_KINDS and not g.get("_fired")]
                c.lnext = min(rest, default=1 << 62)
                site = "%s:%d" % (code.co_name, line)
                self.fire(c, f, site)
                if f["kind"] == "nested":
                    self.nest(c, f)
                    continue
                if f["kind"] == "lstall":
                    self.stall(f["dt"], c, "line", site)
                    continue
                raise make_exc(f.get("exc", "KeyboardInterrupt"), site)

    def nest(self, c, f):
        """A call made by this very thread while its call is suspended: a signal handler, a stream, a reader."""
        keep = {k: getattr(c, k) for k in ("lsteps", "kcalls", "ecalls", "writes", "isteps", "depth", "plan", "faults", "fired", "lnext", "knext", "inext", "lplan", "iplan", "sites", "nops", "out", "clkreads")}
        n = len(self.nested)
        self.nested.append(None)
        c.lsteps = c.kcalls = c.writes = c.isteps = c.depth = c.clkreads = 0
        c.ecalls, c.plan, c.faults, c.fired, c.sites, c.out = {}, {}, [], [], None, []
        c.lnext = c.knext = c.inext = c.lplan = c.iplan = 1 << 62
        c.nops = "%s.n%d" % (c.nops, n)
        try:
            self.execute_op(self, c, f["do"])
            self.nested[n] = (c.cid, keep["nops"], f["n"], c.nops, c.out[0])
        finally:
            for k, v in keep.items():
                setattr(c, k, v)

    def fire(self, c, f, site):
        c.fired.append(f)
        self.fired.append((f["kind"], f.get("exc") or f.get("what") or "", site))
        self.trace.update(("|F%d:%s:%s" % (c.cid, f["kind"], site)).encode())

    # ---------------------------------------------------------------- kernels
    def kernel_event(self, c, kern):
        for f in c.faults:
            if f["kind"] in ("kernel", "kstall") and f["at"] <= c.kcalls and not f.get("_fired"):
                f["_fired"] = True
                rest = [g["at"] for g in c.faults if g["kind"] in ("kernel", "kstall") and not g.get("_fired")]
                c.knext = min(rest, default=1 << 62)
                if f["kind"] == "kstall":
                    self.fire(c, f, kern.__name__)
                    self.stall(f["dt"], c, "kernel", kern.__name__)
                    return
                self.fire(c, f, kern.__name__)
                c.depth = 0 if c.depth == 0 else c.depth
                raise make_exc(f.get("exc", "MemoryError"), "kernel:" + kern.__name__)

    def stall(self, dt, c, what, name):
        self.now += dt
        self.stalled += dt
        self.stalls.append((dt, c.cid, c.nops, what, name, dict(c.ecalls), c.kcalls, repo_stack()))

    # ---------------------------------------------------------------- externals
    def ext_call(self, cat, name, fn, a, k):
        c = self.cur
        if c is None or c.ident != get_ident() or c.depth:
            return fn(*a, **k)
        n = c.ecalls.get(cat, 0)
        c.ecalls[cat] = n + 1
        post = None
        for f in c.faults:
            if f["kind"] == cat and f["at"] == n and not f.get("_fired"):
                f["_fired"] = True
                self.fire(c, f, name)
                w = f.get("what", "raise")
                if w == "raise":
                    raise make_exc(f.get("exc", "InjectedError"), cat + ":" + name)
                elif w == "stall":
                    self.stall(f["dt"], c, cat, name)
                elif w == "nested":
                    self.nest(c, f)
                elif w == "raise_after":
                    post = f
                elif w == "unsuccessful":
                    r = fn(*a, **k)
                    r.success = False
                    r.message = "sim: planted failure"
                    r.status = 9
                    return r
        r = fn(*a, **k)
        if post is not None:
            raise make_exc(post.get("exc", "InjectedError"), cat + ":" + name + ":after")
        return r

    # ---------------------------------------------------------------- clock
    def read_clock(self):
        i = self.nreads
        self.nreads += 1
        c = self.cur
        if i < len(self.clock_prog):
            self.now += self.clock_prog[i]
        else:
            self.now += self.clock_rate
        return self.now


import time as _time_mod

_real_sleep = _time_mod.sleep
_real_cpu = _time_mod.process_time
RUNAWAY = 8.0

# --------------------------------------------------------------------- kernels


class Kernel:
    """Stand-in for a numba dispatcher: runs the Python source, atomically."""

    def __init__(self, fn, nogil=False):
        self.py_func = fn
        self.__name__ = getattr(fn, "__name__", "kernel")
        self.__qualname__ = getattr(fn, "__qualname__", "kernel")
        self.__doc__ = fn.__doc__
        self.__module__ = fn.__module__
        self.__wrapped__ = fn
        self.nogil = nogil
        self.signatures = []
        self.nopython_signatures = []
        KERNEL_CODES.add(fn.__code__)

    def __call__(self, *a, **k):
        sim = CUR
        if sim is None:
            with np.errstate(all="ignore"):
                return self.py_func(*a, **k)
        c = sim.cur
        if c is None or c.ident != get_ident():
            with np.errstate(all="ignore"):
                return self.py_func(*a, **k)
        c.kcalls += 1
        sim.work += 1
        if sim.work > sim.budget:
            sim.hang(c)
        if c.depth:
            if c.nogil:
                sim.gsteps += 1
                sim._preempt(c, "k", c.kcalls, self.__name__)
            if c.kcalls >= c.knext:
                sim.kernel_event(c, self)
            return self.py_func(*a, **k)
        c.depth = 1
        c.nogil = self.nogil  # compiled code that releases the GIL can be preempted inside
        try:
            if c.kcalls >= c.knext:
                sim.kernel_event(c, self)
            with np.errstate(all="ignore"):
                return self.py_func(*a, **k)
        finally:
            c.depth = 0

    def __repr__(self):
        return "<sim kernel %s>" % self.__name__

    # numba API corners that do nothing here
    def compile(self, *a, **k):
        return None

    recompile = disable_compile = compile

    def __get__(self, obj, objtype=None):
        return self if obj is None else types.MethodType(self, obj)


KERNEL_CODES = set()

# --------------------------------------------------------------------- masking
_masked = {}
_masked_file = {}


def _file_mask(fn):
    """Lines at which an asynchronous interrupt is not delivered (see DESIGN.md):
    `with` headers, `except`/`finally` bodies, context-manager functions."""
    if fn in _masked_file:
        return _masked_file[fn]
    m = set()
    try:
        tree = ast.parse(open(fn, encoding="utf8").read())
    except Exception:
        tree = None

    def span(node):
        m.update(range(node.lineno, (node.end_lineno or node.lineno) + 1))

    if tree is not None:
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                hi = n.body[0].lineno
                m.update(range(n.lineno, max(hi, n.lineno + 1)))
            elif isinstance(n, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                for h in n.handlers:
                    span(h)
                for s in n.finalbody:
                    span(s)
                if n.finalbody or n.handlers:
                    m.add(n.lineno)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                deco = [ast.unparse(d) for d in n.decorator_list]
                if n.name in ("__exit__", "__enter__", "__del__", "__aexit__") or any("contextmanager" in d for d in deco):
                    span(n)
    _masked_file[fn] = m
    return m


def masked_lines(code):
    m = _masked.get(code)
    if m is None:
        m = _masked[code] = _file_mask(code.co_filename)
    return m


# --------------------------------------------------------------------- locks
class SimLock:
    _reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0
        self._real = _thread.allocate_lock()
        self.waiters = []

    def _me(self):
        sim = CUR
        if sim is None:
            return None, None
        c = sim.cur
        if c is None or c.ident != get_ident():
            return None, None
        return sim, c

    def acquire(self, blocking=True, timeout=-1):
        sim, c = self._me()
        me = c if c is not None else ("ext", get_ident())
        if self.owner is None:
            self.owner = me
            self.count = 1
            return True
        if self._reentrant and self.owner == me:
            self.count += 1
            return True
        if not blocking or timeout == 0:
            return False
        if sim is None:
            while self.owner is not None:
                _real_sleep(0.001)
            self.owner = me
            self.count = 1
            return True
        # block: hand the token to somebody else until released
        while self.owner is not None:
            if timeout is not None and timeout > 0:
                # a timed wait: nobody else can run means time passes
                run = [x for x in sim.clients if not x.done and x.blocked is None and x is not c]
                if not run:
                    sim.now += timeout
                    return False
            c.blocked = self
            self.waiters.append(c)
            nxt = sim._pick(c)
            if nxt is None:
                sim.deadlock([x for x in sim.clients if not x.done])
            sim.switch_to(c, nxt, "lock")
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            for w in self.waiters:
                if w.blocked is self:
                    w.blocked = None
            self.waiters = []

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # Condition support
    def _is_owned(self):
        sim, c = self._me()
        return self.owner == (c if c is not None else ("ext", get_ident()))

    def _at_fork_reinit(self):
        self.owner = None
        self.count = 0


class SimRLock(SimLock):
    _reentrant = True

    def _release_save(self):
        n = self.count
        self.count = 1
        self.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.count = n


# --------------------------------------------------------------------- stdout
class SimStream:
    """sys.stdout inside the simulation; attributes every write to its client."""

    encoding = "utf-8"
    errors = "strict"
    closed = False

    def __init__(self, name="main"):
        self.name = name
        self.log = []  # (client, op, text)

    def write(self, text):
        sim = CUR
        if sim is not None:
            c = sim.cur
            if c is not None and c.ident == get_ident():
                n = c.writes
                c.writes += 1
                if sim.after_op is not None:
                    text = ""  # keep nothing the library made
                if "w" in c.plan:
                    sim._preempt(c, "w", c.writes, "write")
                for f in c.faults:
                    if f["kind"] == "stdout" and f["at"] == n and not f.get("_fired"):
                        f["_fired"] = True
                        sim.fire(c, f, "write")
                        if f.get("what") == "stall":
                            sim.stall(f["dt"], c, "stdout", "write")
                        elif f.get("what") == "nested":
                            sim.nest(c, f)
                        elif f.get("what") in ("swap", "none"):
                            self.log.append((c.cid, c.nops, text))
                            sys.stdout = sim.alt_stream if f["what"] == "swap" else None
                            return len(text)
                        else:
                            raise make_exc(f.get("exc", "ENOSPC"), "stdout")
                self.log.append((c.cid, c.nops, text))
                return len(text)
        self.log.append((-1, -1, text))
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError("sim stream has no fileno")

    def writable(self):
        return True

    def text_of(self, cid, op):
        return "".join(t for c, o, t in self.log if c == cid and o == op)


# --------------------------------------------------------------------- tracing
CODES = set()


def _walk_code(code, root):
    if not code.co_filename.startswith(root):
        return
    if code in KERNEL_CODES or code in CODES:
        return
    CODES.add(code)
    for k in code.co_consts:
        if isinstance(k, types.CodeType):
            _walk_code(k, root)


def collect_codes(root):
    """Code objects of all Python-level (non kernel) functions of the package."""
    seen = set()

    def visit(o, d=0):
        if id(o) in seen or d > 6:
            return
        seen.add(id(o))
        if isinstance(o, Kernel):
            return
        if isinstance(o, types.FunctionType):
            if o.__code__ not in KERNEL_CODES:
                _walk_code(o.__code__, root)
            for cell in o.__closure__ or ():
                try:
                    visit(cell.cell_contents, d + 1)
                except ValueError:
                    pass
        w = getattr(o, "__wrapped__", None)
        if w is not None and isinstance(w, types.FunctionType):
            visit(w, d + 1)
        if isinstance(o, type) and str(getattr(o, "__module__", "")).startswith("neutralocean"):
            for v in list(vars(o).values()):
                f = getattr(v, "__func__", v)
                if isinstance(v, property):
                    for g in (v.fget, v.fset, v.fdel):
                        if g:
                            visit(g, d + 1)
                visit(f, d + 1)

    for name, m in sorted(sys.modules.items()):
        if name == "neutralocean" or name.startswith("neutralocean."):
            for v in list(vars(m).values()):
                visit(v)


def _on_line(code, line):
    sim = CUR
    if sim is None:
        return
    c = sim.cur
    if c is None or c.depth or c.ident != get_ident():
        return
    sim.step(c, code, line)


def _on_instr(code, off):
    sim = CUR
    if sim is None:
        return
    c = sim.cur
    if c is None or c.depth or c.ident != get_ident():
        return
    sim.istep(c, code, off)


def _istep(self, c, code, off):
    # instruction-level switch points: no faults, only preemption
    self.gsteps += 1
    c.isteps += 1
    if c.isteps >= c.inext:
        for f in c.faults:
            if f["kind"] == "inested" and f["at"] <= c.isteps and not f.get("_fired"):
                f["_fired"] = True
                c.inext = min([g["at"] for g in c.faults if g["kind"] == "inested" and not g.get("_fired")], default=1 << 62)
                self.fire(c, f, "%s+%d" % (code.co_name, off))
                self.nest(c, f)
    if c.isteps >= c.iplan:
        c.iplan = self._preempt(c, "i", c.isteps, "%s+%d" % (code.co_name, off))


Sim.istep = _istep


def install_monitor(root):
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "nosim")
    mon.register_callback(TOOL, E.LINE, _on_line)
    mon.register_callback(TOOL, E.INSTRUCTION, _on_instr)
    collect_codes(root)
    for code in CODES:
        mon.set_local_events(TOOL, code, E.LINE)
    # functions created later (e.g. by a decorator we did not see through)

    def on_start(code, off):
        if code.co_filename.startswith(root) and code not in KERNEL_CODES and code not in CODES and code.co_name != "<module>":
            CODES.add(code)
            mon.set_local_events(TOOL, code, E.LINE)
        return mon.DISABLE

    mon.register_callback(TOOL, E.PY_START, on_start)
    mon.set_events(TOOL, E.PY_START)


def set_granularity(instr):
    mon = sys.monitoring
    for code in CODES:
        mon.set_local_events(TOOL, code, E.LINE | E.INSTRUCTION if instr else E.LINE)
