"""C12: lazy loading gives one consistent namespace in any order, thread or retry.

Every case runs in a process forked from a worker that has never imported ufunclab.  Its threads
run one at a time: a seeded scheduler decides at every line of the import system and of the
package's Python files which one continues; the locks of the import system are replaced by locks
that the scheduler knows.  Faults strike the loading of modules.
"""

import gc
import hashlib
import importlib
import importlib._bootstrap as B
import importlib._bootstrap_external as BX
import importlib.machinery
import json
import os
import random
import select
import signal
import sys
import threading
import time
import _thread

import numpy as np

from .. import mem

try:
    import _simext as X
except ImportError:
    X = None

ID = "C12"
LEVEL = "exploration"
VARIANT = "plain"
ENV = {"SIMRT_HEAP": "1"}
RUNS = {"quick": 2000, "thorough": 120000}
RULE = ("one run = a fresh process in which one to four threads access names of the package in seeded order "
        "and spelling, interleaved at lines of the import system and of the package's Python files, while "
        "module loads fail; non-trivial when a fault struck or threads were switched; distinct by the "
        "sequence of steps, faults, switches and outcomes")
MEASURE = "hash of (steps in order of completion with outcome, faults that struck, switches)"
REAL = "ufunclab as compiled for release, its __init__ and Python modules, importlib, NumPy, CPython"
STUB = ("thread scheduler and import locks (cooperative), module finder and loaders (wrapped to fail), "
        "malloc and Python's allocators during module initialisation")
ASSUMPTIONS = ["threads are switched at lines of Python code, not inside compiled code that holds the GIL",
               "importlib's own deadlock error between a package and its submodule counts as an injected fault",
               "what a step obtained while a load was failing in another thread is not compared"]

PKG = "ufunclab"
REF = None
EXTRA = ["normal", "semivar", "erfcx"]
UNKNOWN = ["nosuch", "_nosuch", "bincountx", "argmi", "Normal", "__path_", "erf", "wrapped", "op_", "LT", "_np2",
           "minmax_", "first1", "np"]
PYMODS = ["_wrapped", "_gendot_wrap", "_version", ""]
REAL_LOCK = _thread.allocate_lock
REAL_GET = _thread.get_ident


class Injected(Exception):
    pass


class InjectedBase(BaseException):
    pass


EXC = {"OSError": lambda: OSError(24, "Too many open files (injected)"),
       "EIO": lambda: OSError(5, "Input/output error (injected)"),
       "ImportError": lambda: ImportError("injected"),
       "MemoryError": lambda: MemoryError("injected"),
       "KeyboardInterrupt": lambda: KeyboardInterrupt("injected"),
       "RuntimeError": lambda: Injected("injected")}


# ------------------------------------------------------------------ generation

def pick_mod(rng):
    q = rng.random()
    if q < .25:
        return rng.choice(["normal", "_first", "_percentileofscore"])
    if q < .5:
        return rng.choice(["_wrapped", "_gendot_wrap", "_gendot", "_bincount", "_convert_to_base", "_nextn",
                           "_one_hot", "_version", "semivar"])
    return rng.choice(REF["mods"])


def names_of(m):
    return REF["by_mod"].get(m) or []


def gen(rng, tier):
    nt = rng.choice([1, 1, 1, 2, 2, 3, 4])
    names = REF["names"]
    pool = rng.sample(names, rng.choice([1, 2, 4, 8]))
    faults = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        m = pick_mod(rng)
        kind = rng.choice(["find", "finderr", "create", "create", "exec", "init", "init", "init", "initheap",
                           "read", "line", "line"])
        if kind in ("read", "line"):
            m = rng.choice(PYMODS)
        elif kind not in ("find", "finderr") and m in PYMODS:
            m = rng.choice(["normal", "_first", "_percentileofscore", "_gendot", "_bincount", "_one_hot"])
        f = {"k": kind, "m": m, "at": rng.choice([1, 1, 1, 2]), "cnt": rng.choice([1, 1, 1, 2, 3]),
             "e": rng.choice(sorted(EXC))}
        if kind in ("init", "initheap"):
            f["n"] = int(2 ** rng.uniform(0, 6.6)) * rng.choice([1, 1, -1])
        if kind == "line":
            f["n"] = int(2 ** rng.uniform(0, 7.3))
        faults.append(f)
        # make it matter
        if rng.random() < .8:
            cand = names_of(m)
            if m in ("_bincount", "_convert_to_base", "_nextn", "_one_hot"):
                cand = names_of("_wrapped")
            elif m == "_gendot":
                cand = ["gendot"]
            if cand:
                pool += [rng.choice(cand)] * 2
    threads = []
    for t in range(nt):
        steps = []
        for _ in range(rng.choice([1, 2, 4, 7]) if nt > 1 else rng.choice([2, 5, 10])):
            q = rng.random()
            if q < .34:
                s = ["getattr", rng.choice(pool)]
            elif q < .55:
                s = ["from", rng.choice(pool)]
            elif q < .60:
                s = ["star", ""]
            elif q < .68:
                s = ["unknown", rng.choice(UNKNOWN)]
            elif q < .72:
                s = ["fromunknown", rng.choice(UNKNOWN)]
            elif q < .77:
                s = ["dir", ""]
            elif q < .83:
                s = ["hasattr", rng.choice(pool)]
            elif q < .88:
                s = ["sub", rng.choice(["normal", "semivar"])]
            elif q < .92:
                s = ["fromsub", rng.choice(pool)]
            elif q < .96:
                s = ["import", ""]
            else:
                s = ["getattr", rng.choice(names)]
            steps.append(s)
            while rng.random() < .3:
                steps.append(list(s))
        threads.append(steps)
    return {"threads": threads, "faults": faults, "sched": rng.randrange(1 << 30),
            "p": rng.choice([.5, .1, .03, .01, .003]) if nt > 1 else 0, "sw": None}


# --------------------------------------------------------------------- scheduler

class Sim:
    def __init__(self, case):
        self.case = case
        self.n = len(case["threads"])
        self.sem = [REAL_LOCK() for _ in range(self.n)]
        for s in self.sem:
            s.acquire()
        self.done = [False] * self.n
        self.waiting = [None] * self.n
        self.cur = None
        self.ids = {}
        self.events = 0
        self.rng = random.Random(case["sched"])
        self.log = []
        self.sw = None if case["sw"] is None else {int(a): b for a, b in case["sw"]}
        self.main = REAL_LOCK()
        self.main.acquire()
        self.dead = None
        self.active = False
        self.hold = 0       # while allocations of the running thread fail

    def me(self):
        return self.ids.get(REAL_GET()) if self.active else None

    def runnable(self):
        return [t for t in range(self.n) if not self.done[t]
                and (self.waiting[t] is None or self.waiting[t].free_for(t))]

    def give(self, t):
        self.cur = t
        self.sem[t].release()

    def event(self):
        """A point at which another thread may continue."""
        t = self.me()
        if t is None or self.n == 1 or self.hold:
            return
        self.events += 1
        if self.sw is not None:
            u = self.sw.get(self.events)
            if u is None or u == t or u not in self.runnable():
                return
        else:
            if self.rng.random() >= self.case["p"]:
                return
            c = [u for u in self.runnable() if u != t]
            if not c:
                return
            u = self.rng.choice(c)
        self.log.append((self.events, u))
        self.give(u)
        self.sem[t].acquire()

    def block(self, t, lock):
        self.waiting[t] = lock
        while not lock.free_for(t):
            c = self.runnable()
            if not c:
                self.dead = "every thread waits for a lock"
                self.main.release()
                REAL_LOCK().acquire() if False else time.sleep(1e6)
            u = self.rng.choice(c) if self.sw is None else min(c)
            self.give(u)
            self.sem[t].acquire()
        self.waiting[t] = None

    def finish(self, t):
        self.done[t] = True
        c = self.runnable()
        if c:
            self.give(self.rng.choice(c) if self.sw is None else min(c))
        elif all(self.done):
            self.main.release()
        else:
            self.dead = "every thread waits for a lock"
            self.main.release()


SIM = None


class Lock:
    """A lock that the scheduler knows; plain outside of simulated threads."""
    recursive = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def free_for(self, t):
        return self.count == 0 or (self.recursive and self.owner == t)

    def acquire(self, blocking=True, timeout=-1):
        t = SIM.me() if SIM else None
        t = "main" if t is None else t
        if t != "main":
            SIM.event()
        if not self.free_for(t):
            if not blocking:
                return False
            if timeout is not None and timeout > 0:
                return False        # simulated time passes
            if t == "main":
                raise RuntimeError("deadlock in the main thread")
            SIM.block(t, self)
        self.owner = t
        self.count += 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.count > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    acquire_lock = acquire
    release_lock = release

    def _is_owned(self):
        t = SIM.me() if SIM else None
        return self.count > 0 and self.owner == ("main" if t is None else t)


class RLock(Lock):
    recursive = True

    def _release_save(self):
        s = (self.count, self.owner)
        self.count, self.owner = 0, None
        return s

    def _acquire_restore(self, s):
        self.acquire()
        self.count, self.owner = s


class Proxy:
    def __init__(self, real, **over):
        self.__dict__.update(over)
        self._real = real

    def __getattr__(self, name):
        return getattr(self._real, name)


# ------------------------------------------------------------------------ faults

class Faults:
    def __init__(self, case):
        self.fs = [dict(f, seen=0) for f in case["faults"]]
        self.on = True
        self.step = {}          # thread -> (index, fault intervals it fired)
        self.fired = []         # [clock when it fired, clock when its step ended, kind]
        self.clock = 0

    def tick(self):
        self.clock += 1
        return self.clock

    def fire(self, kind):
        t = SIM.me()
        self.fired.append([self.tick(), None, kind, t])

    def settle(self, t):
        for f in self.fired:
            if f[3] == t and f[1] is None:
                f[1] = self.tick()

    def hit(self, kind, mod):
        """Whether a fault of this kind strikes this operation on the module."""
        if not self.on or SIM.me() is None:
            return None
        for f in self.fs:
            if f["k"] == kind and f["m"] == mod:
                f["seen"] += 1
                if f["at"] <= f["seen"] < f["at"] + f["cnt"]:
                    return f
        return None

    def excused(self, t0, t1):
        return any(f[0] <= t1 and (f[1] is None or f[1] >= t0) for f in self.fired)


FAULTS = None


def short(name):
    return name[len(PKG) + 1:] if name.startswith(PKG + ".") else "" if name == PKG else None


def install():
    """Puts the seams in place (in the forked child)."""
    B._thread = Proxy(_thread, RLock=RLock, allocate_lock=Lock)
    imp_lock = RLock()

    def release():
        imp_lock.release()

    B._imp = Proxy(B._imp, acquire_lock=imp_lock.acquire, release_lock=release, lock_held=imp_lock.locked)
    B._module_locks.clear()
    threading.Lock = threading._allocate_lock = Lock
    threading.RLock = threading._CRLock = RLock
    _thread.allocate_lock = _thread.allocate = Lock
    _thread.RLock = RLock
    _thread.LockType = Lock

    fs = BX.FileFinder.find_spec

    def find_spec(self, fullname, target=None):
        m = short(fullname)
        if m is not None:
            f = FAULTS.hit("find", m)
            if f:
                FAULTS.fire("find")
                return None
            f = FAULTS.hit("finderr", m)
            if f:
                FAULTS.fire("finderr")
                raise OSError(24, "Too many open files (injected)")
        return fs(self, fullname, target)

    BX.FileFinder.find_spec = find_spec
    L = BX.ExtensionFileLoader
    create, exe = L.create_module, L.exec_module

    def create_module(self, spec):
        m = short(spec.name)
        if m is None:
            return create(self, spec)
        f = FAULTS.hit("create", m)
        if f:
            FAULTS.fire("create")
            raise EXC[f["e"]]()
        f = FAULTS.hit("init", m)
        if f:
            SIM.hold += 1
            X.py_arm(f["n"], 1)
            X.heap_arm(0, 4, 0)
            try:
                return create(self, spec)
            finally:
                n, failed = X.py_disarm()
                X.heap_disarm()
                SIM.hold -= 1
                if failed:
                    FAULTS.fire("init")
        f = FAULTS.hit("initheap", m)
        if f:
            SIM.hold += 1
            X.heap_arm(f["n"], 4, 0)
            try:
                return create(self, spec)
            finally:
                h = X.heap_disarm()
                SIM.hold -= 1
                if h[1]:
                    FAULTS.fire("initheap")
        return create(self, spec)

    def exec_module(self, module):
        m = short(module.__spec__.name)
        f = m is not None and FAULTS.hit("exec", m)
        if f:
            FAULTS.fire("exec")
            raise EXC[f["e"]]()
        return exe(self, module)

    L.create_module, L.exec_module = create_module, exec_module
    gd = BX.FileLoader.get_data

    def get_data(self, path):
        m = short(self.name)
        f = m is not None and FAULTS.hit("read", m)
        if f:
            FAULTS.fire("read")
            raise EXC[f["e"]]()
        return gd(self, path)

    BX.FileLoader.get_data = get_data


SITE = os.environ.get("VSIM_SITE", "/nonexistent")
BOOT = ("<frozen importlib._bootstrap>", "<frozen importlib._bootstrap_external>")


def pyname(fn):
    if fn.startswith(SITE) and fn.endswith(".py"):
        n = os.path.basename(fn)[:-3]
        return "" if n == "__init__" else n
    return None


def local_boot(frame, what, arg):
    SIM.event()
    return local_boot


def local_pkg(frame, what, arg):
    if what == "line" or what == "opcode":
        if what == "line" and FAULTS.on:
            m = pyname(frame.f_code.co_filename)
            for f in FAULTS.fs:
                if f["k"] == "line" and f["m"] == m:
                    f["seen"] += 1
                    if f["n"] == f["seen"] and loading(m, frame):
                        FAULTS.fire("line")
                        # more often for the following attempts
                        f["cnt"] -= 1
                        if f["cnt"] > 0:
                            f["seen"] = 0
                        raise EXC[f["e"]]()
        SIM.event()
    return local_pkg


def loading(m, frame):
    """Whether the module-level code runs, which is when a failure is one of the load."""
    return frame.f_code.co_name == "<module>"


def tracer(frame, what, arg):
    fn = frame.f_code.co_filename
    if fn in BOOT:
        return local_boot
    if pyname(fn) is not None:
        # CPython 3.12 crashes when a trace function that raised is due for an opcode
        frame.f_trace_opcodes = SIM.n > 1 and not any(f["k"] == "line" for f in FAULTS.fs)
        return local_pkg
    return None


# ------------------------------------------------------------------------ the steps

def load_attr(name):
    ns = {}
    exec("import ufunclab", ns)
    return getattr(ns["ufunclab"], name)


def load_from(name):
    ns = {}
    exec(f"from ufunclab import {name} as x", ns)
    return ns["x"]


def defining(name):
    """The object in the submodule that the table of the reference names."""
    m = REF["where"][name]
    if m == "":
        return load_attr(name)
    ns = {}
    exec(f"import importlib as i; m = i.import_module('ufunclab.{m}')", ns)
    return getattr(ns["m"], name)


def do(step, seen):
    """Executes a step.  Returns (violation or None, [(name, object)])."""
    k, a = step
    if k == "getattr":
        return None, [(a, load_attr(a))]
    if k == "from":
        return None, [(a, load_from(a))]
    if k == "fromsub":
        if a in EXTRA or REF["where"].get(a) is None:
            return None, [(a, load_attr(a))]
        return None, [(a, defining(a))]
    if k == "star":
        ns = {}
        exec("from ufunclab import *", ns)
        miss = [n for n in REF["all"] if n not in ns]
        if miss:
            return f"'from ufunclab import *' did not give {miss[:4]}", []
        return None, [(n, ns[n]) for n in REF["all"]]
    if k == "unknown":
        try:
            load_attr(a)
        except AttributeError:
            return None, []
        return f"ufunclab.{a} exists", []
    if k == "fromunknown":
        exec("import ufunclab")
        try:
            load_from(a)
        except ImportError:
            return None, []
        return f"'from ufunclab import {a}' succeeded", []
    if k == "dir":
        ns = {}
        exec("import ufunclab", ns)
        miss = [n for n in REF["all"] if n not in dir(ns["ufunclab"])]
        if miss:
            return f"dir() does not list {miss[:4]}", []
        if sorted(ns["ufunclab"].__all__) != REF["all"]:
            return "__all__ has changed", []
        return None, []
    if k == "hasattr":
        ns = {}
        exec("import ufunclab", ns)
        if not hasattr(ns["ufunclab"], a):
            return f"hasattr(ufunclab, {a!r}) is False", []
        return None, []
    if k == "sub":
        ns = {}
        exec(f"import ufunclab.{a} as x", ns)
        return None, [(a, ns["x"])]
    exec("import ufunclab")
    return None, []


def nice(e):
    return isinstance(e, (Exception, KeyboardInterrupt)) and not isinstance(e, (SystemError, AssertionError))


def thread_body(t, case, out):
    sim = SIM
    sim.sem[t].acquire()
    sim.ids[REAL_GET()] = t
    for i, step in enumerate(case["threads"][t]):
        t0 = FAULTS.tick()
        v = None
        objs = []
        res = "ok"
        e1 = None
        sys.settrace(tracer)
        try:
            v, objs = do(step, out)
        except BaseException as e:
            e1 = e
        sys.settrace(None)
        if isinstance(e1, B._DeadlockError):
            FAULTS.fire("deadlock")
        t1 = FAULTS.tick()
        exc = FAULTS.excused(t0, t1)
        FAULTS.settle(t)
        if e1 is not None:
            res = type(e1).__name__
            if not exc:
                v = f"{step} raised {type(e1).__name__}: {e1}, though nothing had failed"
            elif not nice(e1):
                v = f"{step} raised {type(e1).__name__}: {e1} when a module failed to load"
        elif v and exc and step[0] not in ("unknown", "fromunknown"):
            v = None
        if v:
            out["v"] = out["v"] or ["step", v, step[1] or step[0]]
        if not exc:
            for n, o in objs:
                check_same(out, n, o)
        out["log"].append((t, i, step[0], step[1], res, bool(exc)))
        e1 = None
        SIM.event()
    sim.finish(t)


def check_same(out, name, o):
    first = out["objs"].setdefault(name, o)
    if first is not o and not out["v"]:
        out["v"] = ["identity", f"ufunclab.{name} is another object than before", name]


# ---------------------------------------------------------------------- description

def probe(u):
    """What a function object does with small arguments, for each of its loops."""
    r = []
    for sig in u.types:
        i, o = sig.split("->")
        try:
            if u.signature:
                dims = [p.split(",") if p else [] for p in
                        u.signature.split("->")[0].strip("()").replace(" ", "").split("),(")]
                a = [np.ones([dim(d) for d in p], c) for p, c in zip(dims, i)]
            else:
                a = [np.ones(2, c) for c in i]
            with np.errstate(all="ignore"):
                y = u(*a, dtype=tuple(o) if len(o) > 1 else o) if "O" not in sig else u(*a)
            y = y if isinstance(y, tuple) else (y,)
            r.append(repr([(str(q.dtype), np.asarray(q).tolist()) for q in y]))
        except Exception as e:
            r.append(type(e).__name__)
    return r


def dim(d):
    d = d.rstrip("?")
    return int(d) if d.isdigit() else 3


def describe(o, use=True):
    if isinstance(o, np.ufunc):
        d = ["ufunc", o.__name__, o.nin, o.nout, o.signature, o.types, o.__doc__, probe(o) if use else None]
    elif isinstance(o, type(os)):
        d = ["module", o.__name__, sorted((n, describe(x, use)) for n, x in vars(o).items()
                                          if isinstance(x, np.ufunc))]
    elif isinstance(o, type):
        d = ["class", o.__name__, sorted((n, repr(x)) for n, x in vars(o).items() if not n.startswith("__"))]
    elif callable(o):
        d = ["function", o.__name__, o.__doc__]
    else:
        d = ["value", repr(o)]
    return hashlib.sha256(repr(d).encode()).hexdigest()[:16]


def wrappers(u):
    """A few calls through the Python modules."""
    r = []
    for f in (lambda: u.bincount([1, 2, 2], 4).tolist(),
              lambda: u.convert_to_base(11, 2, 4).tolist(),
              lambda: u.nextn_greater([1., 2.], 1).tolist(),
              lambda: u.nextn_less([1., 2.], 1).tolist(),
              lambda: u.one_hot(1, 3).tolist(),
              lambda: u.first([1, 5], u.op.GT, 2, 0).tolist(),
              lambda: u.gendot(np.multiply, np.add)([1, 2], [3, 4]).tolist()):
        try:
            r.append(f())
        except Exception as e:
            r.append(type(e).__name__)
    return r


def find_where(name, o):
    """The submodule that defines the object."""
    p = PKG + "."
    for m in sorted(sys.modules):
        mod = sys.modules[m]
        if m.startswith(p) and mod is not None and vars(mod).get(name) is o:
            return m[len(p):]
    return None


def final(out, use):
    """Everything works now, and is what it was."""
    try:
        exec("import ufunclab")
    except BaseException as e:
        return ["unusable", f"'import ufunclab' raises {type(e).__name__}: {e} after the faults are gone", "ufunclab"]
    u = sys.modules[PKG]
    for n in REF["names"]:
        for f in (load_attr, load_from, load_attr):
            try:
                o = f(n)
            except BaseException as e:
                return ["unusable", f"ufunclab.{n} raises {type(e).__name__}: {e} after the faults are gone", n]
            check_same(out, n, o)
        if describe(o, use) != REF["desc" if use else "desc0"][n]:
            return ["different", f"ufunclab.{n} is not what it is in an undisturbed process", n]
        w = REF["where"].get(n)
        if w:
            m = find_where(n, o)
            if m is None:
                return ["identity", f"ufunclab.{n} is not the object in its defining module", n]
    for n in UNKNOWN:
        try:
            getattr(u, n)
        except AttributeError:
            continue
        except BaseException as e:
            return ["unknown", f"ufunclab.{n} raises {type(e).__name__} instead of AttributeError", "unknown"]
        return ["unknown", f"ufunclab.{n} exists", "unknown"]
    for s in (["star", ""], ["dir", ""]):
        try:
            v, objs = do(s, out)
        except BaseException as e:
            return ["unusable", f"{s[0]} raises {type(e).__name__}: {e} after the faults are gone", s[0]]
        if v:
            return ["unusable", v, s[0]]
        for n, o in objs:
            check_same(out, n, o)
    if use and wrappers(u) != REF["wrap"]:
        return ["different", "calls give other results than in an undisturbed process", "wrappers"]
    return None


def child(case):
    global SIM, FAULTS
    out = {"v": None, "objs": {}, "log": []}
    SIM = Sim(case)
    FAULTS = Faults(case)
    install()
    # directories whose times change while checks run are not searched
    drop = {os.path.realpath(p) for p in ("", os.path.dirname(os.path.dirname(os.path.dirname(__file__))),
                                          os.path.dirname(getattr(X, "__file__", "")))}
    sys.path[:] = [p for p in sys.path if os.path.realpath(p) not in drop]
    sys.path_importer_cache.clear()
    gc.disable()        # or the history of the worker decides when weak references die
    for t in range(SIM.n):
        _thread.start_new_thread(thread_body, (t, case, out))
    # every thread blocks on its semaphore at once
    SIM.active = True
    first = SIM.rng.randrange(SIM.n) if SIM.sw is None else SIM.sw.get(0, 0)
    SIM.log.append((0, first))
    SIM.give(first)
    SIM.main.acquire()
    if SIM.dead:
        return {"v": ["deadlock", SIM.dead + " after " + repr(out["log"][-3:]), "ufunclab"], "log": out["log"],
                "sw": SIM.log, "fired": [], "ev": SIM.events}
    SIM.active = False
    FAULTS.on = False
    v = out["v"] or final(out, True) or out["v"]
    return {"v": v, "log": out["log"], "sw": SIM.log, "fired": [f[2] for f in FAULTS.fired], "ev": SIM.events}


def forked(fn, timeout=60):
    """The result of fn() in a forked process, or (None, what happened)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            signal.alarm(int(timeout) + 5)
            b = json.dumps(fn()).encode()
        except BaseException as e:
            import traceback
            b = json.dumps({"err": traceback.format_exc() + repr(e)}).encode()
        while b:
            b = b[os.write(w, b):]
        os._exit(0)
    os.close(w)
    data = b""
    t0 = time.monotonic()
    hang = False
    while True:
        left = timeout - (time.monotonic() - t0)
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            hang = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if hang:
        return None, "hang"
    if os.WIFSIGNALED(st):
        return None, "crash-" + signal.Signals(os.WTERMSIG(st)).name
    if not data:
        return None, f"exit {st}"
    return json.loads(data), None


def reference():
    """What an undisturbed process sees."""
    import ufunclab as u
    alln = sorted(u.__all__)
    names = sorted(set(alln + EXTRA))
    objs = {n: getattr(u, n) for n in names}
    where = {}
    for n in names:
        w = find_where(n, objs[n])
        where[n] = w if n not in ("normal", "semivar", "erfcx") else None
    by = {}
    for n in names:
        if where[n]:
            by.setdefault(where[n], []).append(n)
    by["normal"] = ["normal", "erfcx"]
    by["semivar"] = ["semivar"]
    mods = sorted(m[len(PKG) + 1:] for m in sys.modules if m.startswith(PKG + "."))
    return {"all": alln, "names": names, "where": where, "by_mod": by, "mods": mods,
            "desc": {n: describe(o) for n, o in objs.items()},
            "desc0": {n: describe(o, False) for n, o in objs.items()}, "wrap": wrappers(u)}


def setup():
    global REF
    import ctypes
    if PKG in sys.modules:
        raise RuntimeError("the worker must not import ufunclab")
    r, bad = forked(reference)
    if bad or "err" in r:
        raise RuntimeError(f"the package cannot be loaded: {bad or r['err']}")
    REF = r
    # Map the modules, so that their addresses are known before they are initialised.
    d = os.path.join(SITE, PKG)
    for n in sorted(os.listdir(d)):
        if n.endswith(".so"):
            ctypes.PyDLL(os.path.join(d, n))
    ul, rt = mem.module_ranges()
    X.heap_ranges(ul, 0)
    X.heap_ranges(rt, 1)
    return {}


def target(case):
    return "ufunclab"


def run(case, ctx):
    r, bad = forked(lambda: child(case))
    if bad:
        return {"kind": bad, "target": "ufunclab", "detail": f"{bad} in a process that ran {case}"}, bad, 1, bad, {}
    if "err" in r:
        raise RuntimeError(r["err"])
    v = r["v"]
    if v:
        v = {"kind": v[0], "target": v[2], "detail": v[1] + "\nsteps: " + repr(r["log"][-6:]) + "\nfaults: "
             + repr(r["fired"]), "sw": r["sw"]}
    sig = hashlib.sha256(json.dumps([r["log"], r["fired"], r["sw"]]).encode()).hexdigest()[:16]
    st = {"steps": len(r["log"]) + r["ev"], "switches": len(r["sw"]) - 1, "threads": len(case["threads"])}
    for f in r["fired"]:
        st["fault:" + f] = st.get("fault:" + f, 0) + 1
    for x in r["log"]:
        st["op:" + x[2]] = st.get("op:" + x[2], 0) + 1
        if x[4] != "ok":
            st["raised"] = st.get("raised", 0) + 1
    d = hashlib.sha256(json.dumps([r["log"], r["fired"], r["sw"], r["ev"], v and v["detail"]]).encode()).hexdigest()
    return v, d[:16], bool(r["fired"] or len(r["sw"]) > 1), sig, st


def concretize(case, v):
    return dict(case, sw=v["sw"]) if v.get("sw") and case["sw"] is None else None


def shrinks(case):
    th = case["threads"]
    if len(th) > 1 and case["sw"] is None:
        for t in range(len(th)):
            yield dict(case, threads=th[:t] + th[t + 1:])
    for i in range(len(case["faults"])):
        yield dict(case, faults=case["faults"][:i] + case["faults"][i + 1:])
    for t, s in enumerate(th):
        n = len(s)
        k = max(1, n // 2)
        while n > 1 and k >= 1:
            for i in range(0, n, k):
                if s[:i] + s[i + k:]:
                    yield dict(case, threads=th[:t] + [s[:i] + s[i + k:]] + th[t + 1:])
            if k == 1:
                break
            k //= 2
    if case["sw"]:
        n = len(case["sw"])
        k = max(1, n // 2)
        while n and k >= 1:
            for i in range(0, n, k):
                yield dict(case, sw=case["sw"][:i] + case["sw"][i + k:])
            if k == 1:
                break
            k //= 2
    for i, f in enumerate(case["faults"]):
        for k, z in (("cnt", 1), ("at", 1)):
            if f[k] != z:
                yield dict(case, faults=case["faults"][:i] + [dict(f, **{k: z})] + case["faults"][i + 1:])
