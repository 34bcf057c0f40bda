"""Simulated element objects: every operation the library starts on them is a step of the
simulation, where a fault (an exception) or an action may strike."""

import copy
import gc
import sys
import weakref

import numpy as np

from . import deliver as D
from . import mem
from . import reg

CMP = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b,
       "ge": lambda a, b: a >= b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b}
ARI = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b}


class Sim:
    """The state of one simulated call: the log of operations and the plan of actions."""

    def __init__(self):
        self.log = None
        self.n = 0
        self.plan = {}
        self.off = True
        self.truth = False
        self.defer = 0       # every so many operations are left to the other operand
        self.pend = False
        self.acting = False
        self.dels = False    # the end of an element is a step
        self.all = []        # weak references to every element ever made
        self.tlive = 0

    def begin(self, plan, truth, log=True, defer=0, dels=False):
        self.log = [] if log else None
        self.n = 0
        self.defer = defer
        self.pend = False
        self.dels = dels
        self.plan = plan
        self.truth = truth
        self.off = False

    def end(self):
        self.off = True
        self.dels = False
        self.plan = {}
        log, self.log = self.log, None
        return log

    def step(self, name, a, b):
        if self.off or (self.acting and name == "del"):
            return          # (NumPy's own assignment is not prepared for elements that act when they end)
        self.n += 1
        if self.log is not None:
            self.log.append((name, a.uid, b.uid if isinstance(b, E) else type(b).__name__))
        act = self.plan.get(self.n)
        if act is not None:
            was, self.acting = self.acting, True
            try:
                act(a, b)
            finally:
                self.acting = was


S = Sim()


class T:
    """A truth value whose evaluation is one more step."""
    __slots__ = ("v", "uid")

    def __init__(self, v, uid):
        self.v = v
        self.uid = uid
        S.tlive += 1

    def __del__(self):
        S.tlive -= 1

    def __bool__(self):
        S.step("bool", self, None)
        return self.v


class E:
    __slots__ = ("v", "uid", "__weakref__")
    count = 0

    def __new__(cls, v):
        # two classes, so that each can be the other's reflected operand
        return object.__new__(EB if E.count & 1 else EA)

    def __init__(self, v):
        self.v = v
        E.count += 1
        self.uid = E.count
        S.all.append(weakref.ref(self))

    def __repr__(self):
        return f"E({self.v!r})"

    __hash__ = object.__hash__

    def conjugate(self):
        return self

    def __del__(self):
        if S.dels and not S.off:
            S.step("del", self, None)


class EA(E):
    __slots__ = ()


class EB(E):
    __slots__ = ()


def _defer(a, b, arith):
    """Whether the operation is left to b."""
    if not S.defer or S.off or not isinstance(b, E):
        return False
    if S.pend:
        S.pend = False
        return False
    if S.n % S.defer or (arith and type(a) is type(b)):
        return False
    S.pend = True
    return True


def _val(o):
    if isinstance(o, E):
        return o.v
    if isinstance(o, (int, float)):
        return o
    raise TypeError(f"cannot operate on {type(o).__name__}")


def _cmp(name):
    fn = CMP[name]

    def op(self, other):
        S.step(name, self, other)
        if _defer(self, other, False):
            return NotImplemented
        r = fn(self.v, _val(other))
        return T(r, self.uid) if S.truth and not S.off else r
    return op


def _ari(name, refl):
    fn = ARI[name]

    def op(self, other):
        S.step(name, self, other)
        if _defer(self, other, True):
            return NotImplemented
        return E(fn(_val(other), self.v) if refl else fn(self.v, _val(other)))
    return op


for _n in CMP:
    setattr(E, f"__{_n}__", _cmp(_n))
for _n in ARI:
    setattr(E, f"__{_n}__", _ari(_n, 0))
    setattr(E, f"__r{_n}__", _ari(_n, 1))


def booms(base):
    """Classes of exceptions that are a Boom and something that code may treat specially as well."""
    out = [base]
    for x in (TypeError, ValueError, NotImplementedError, KeyError, IndexError, AttributeError, StopIteration,
              ZeroDivisionError, OverflowError, FloatingPointError, MemoryError, RecursionError, OSError,
              KeyboardInterrupt, SystemError, LookupError, AssertionError):
        out.append(type("Boom" + x.__name__, (base, x), {}))
    return out


def functions():
    fs = reg.cached()
    return [n for n in fs if any("O" in t for t in fs[n].types)]


def gen_call(rng, names=None):
    fs = reg.cached()
    f = fs[rng.choice(names or functions())]
    loops = [i for i, t in enumerate(f.types) if "O" in t]
    plan = D.gen_plan(rng, f, loops=loops, raw=False, big=.05)
    for k in ("alias", "cast", "where"):
        plan.pop(k, None)
    if f.out_dims() and not plan["out"]:
        plan["out"] = 1
    while D.prod(plan["outer"]) > 12:
        plan["outer"] = [max(1, x // 2) for x in plan["outer"]]
    for d in plan["core"]:
        if not d.isdigit() and plan["core"][d] == 0 and f.base not in reg.ZERO_OK:
            plan["core"][d] = 1
    for l in plan["lay"]:
        l.pop("unal", None)
        l.pop("swap", None)
    plan["dup"] = rng.choice([0, 0, .2, .6])
    plan["nan"] = rng.choice([0, 0, 0, .15])
    plan["truth"] = int(rng.random() < .4)
    plan["defer"] = rng.choice([0, 0, 1, 2, 3])
    # An output that the loop does not produce as it is wanted: NumPy buffers and casts it
    tout = f.loop_types(loops[0])[1]
    plan["ocast"] = [rng.choice("iOd") if t == "l" and rng.random() < .25 else "" for t in tout]
    return plan


class Call:
    """The operands of one call, all of whose object memory is known."""

    def __init__(self, f, plan):
        self.f = f
        self.plan = plan
        ins = D.logical_inputs(f, plan)
        tin, tout = f.loop_types(plan["loop"])
        r = np.random.Generator(np.random.PCG64(plan["dseed"] + 9))
        self.bases = []          # memory blocks of object operands
        self.inb = []            # (index, base) of the inputs
        self.keep = []
        args = []
        pool = []
        for k, a in enumerate(ins):
            if a.dtype == object:
                vals = np.empty(a.shape, object)
                for i in np.ndindex(*a.shape):
                    if pool and r.random() < plan["dup"]:
                        vals[i] = pool[int(r.integers(0, len(pool)))]
                    else:
                        v = a[i]
                        if plan["nan"] and r.random() < plan["nan"]:
                            v = float("nan")
                        vals[i] = E(v)
                        pool.append(vals[i])
                v, b = mem.exact(vals, plan["lay"][k], 0)
                self.pad(b)
                self.bases.append(b)
                self.inb.append(b)
                vals = None
            else:
                v, b = mem.exact(a, plan["lay"][k], 0x11)
                self.keep.append((b, b.copy()))
            args.append(v)
        pool = None
        self.outs = None
        self.kw = {"signature": f.types[plan["loop"]]}
        outer = tuple(plan["outer"])
        if plan["out"]:
            self.outs = []
            for k in range(f.nout):
                shp = outer + D.core_shape(f, f.nin + k, plan["core"])
                dt = np.dtype(plan["ocast"][k] or tout[k])
                if dt == object:
                    init = np.empty(shp, object)
                    for i in np.ndindex(*shp):
                        init[i] = E(-1)
                    v, b = mem.exact(init, plan["lay"][f.nin + k], 0)
                    self.pad(b)
                    self.bases.append(b)
                    init = None
                else:
                    v, b = mem.exact(np.zeros(shp, dt), plan["lay"][f.nin + k], 0x22)
                self.outs.append(v)
        self.args = args
        if plan.get("axes"):
            self.set_axes(len(outer))
        if self.outs is not None:
            self.kw["out"] = tuple(self.outs)
        if plan.get("order"):
            self.kw["order"] = plan["order"]

    @staticmethod
    def pad(b):
        for i in range(len(b)):
            if b[i] is None:
                b[i] = E(-2)

    def set_axes(self, no):
        f, plan = self.f, self.plan
        axes = []
        for k in range(f.nin + f.nout):
            nc = len(f.core[k])
            nd = no + nc
            pos = []
            for want in plan["axes"][k][:nc]:
                p = want % nd
                while p in pos:
                    p = (p + 1) % nd
                pos.append(p)
            axes.append(tuple(pos))

        def mv(v, k):
            nc = len(f.core[k])
            return np.moveaxis(v, tuple(range(v.ndim - nc, v.ndim)), axes[k]) if nc else v
        self.args = [mv(v, k) for k, v in enumerate(self.args)]
        if self.outs is not None:
            self.outs = [mv(v, f.nin + k) for k, v in enumerate(self.outs)]
        self.kw["axes"] = axes

    def go(self):
        old = np.setbufsize(self.plan["buf"])
        try:
            with np.errstate(all="ignore"):
                r = self.f.uf(*self.args, **self.kw)
        finally:
            np.setbufsize(old)
        return r if isinstance(r, tuple) else (r,)

    def inputs_changed(self, snap):
        for b, s in zip(self.inb, snap):
            for i in range(len(b)):
                if b[i] is not s[i]:
                    return True
        return any(not np.array_equal(x, y) for x, y in self.keep)

    def snapshot(self):
        return [list(b) for b in self.inb]


def occurrences(arrays, extra=()):
    """How often each element object is held by these arrays (each block counted once)."""
    n = {}
    seen = set()
    for a in arrays:
        if not isinstance(a, np.ndarray):
            if isinstance(a, E):
                n[id(a)] = n.get(id(a), 0) + 1
            continue
        if a.dtype != object:
            continue
        while isinstance(a.base, np.ndarray):
            a = a.base
        if id(a) in seen or not a.flags.owndata:
            continue       # (a view of a block that is in the list itself)
        seen.add(id(a))
        for i in range(a.size):
            o = a.reshape(-1)[i] if a.ndim != 1 else a[i]
            if isinstance(o, E):
                n[id(o)] = n.get(id(o), 0) + 1
    a = o = None
    return n


def ref_errors(arrays):
    """None, or what is wrong with the reference count of some element."""
    occ = occurrences(arrays)
    alive = []
    for w in S.all:
        o = w()
        if o is None:
            continue
        alive.append(w)
        have = sys.getrefcount(o) - 2      # o and the argument
        want = occ.get(id(o), 0)
        if have != want:
            return f"{o!r} has {have} references, {want} are accounted for"
        o = None
    S.all = alive
    if S.tlive:
        return f"{S.tlive} results of comparisons were not released"
    return None


def res_key(res):
    """Results as comparable data: identity of elements, values of everything else."""
    out = []
    for a in res:
        a = np.asarray(a)
        if a.dtype == object:
            out.append(tuple(("E", o.v if o.v == o.v else "nan") if isinstance(o, E) else repr(o)
                             for o in a.ravel()))
        else:
            out.append(tuple(a.ravel().tolist()))
    return out


def shrink_call(plan):
    for k in ("dup", "nan", "truth", "defer"):
        if plan.get(k):
            yield dict(plan, **{k: 0})
    if any(plan["ocast"]):
        yield dict(plan, ocast=["" for _ in plan["ocast"]])
    for q in D.shrink_plan(plan):
        yield q
