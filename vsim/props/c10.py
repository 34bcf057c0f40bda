"""C10: bincount counts every element exactly once in out."""

import hashlib
from fractions import Fraction

import numpy as np

from .. import deliver as D
from .. import mem
from .. import reg

try:
    import _simext as X
except ImportError:
    X = None

ID = "C10"
LEVEL = "exploration"
VARIANT = "plain"
ENV = {}
RUNS = {"quick": 60000, "thorough": 2000000}
RULE = ("one run = a history of bincount calls on one or two accumulating outputs (and calls without out): "
        "seeded integer types, values in and out of range, weights, layouts, axes, m given or not, calls "
        "that are rejected, calls during which an allocation fails and that are repeated, outputs saved and "
        "restored by a crash; after every call each output is compared with an exact count; non-trivial "
        "when at least two calls counted into the same output; distinct by the whole history")
MEASURE = "hash of (types, shapes, layouts and sequence of calls, faults and crashes)"
REAL = "bincount (wrapper and gufuncs) as compiled for release, NumPy, CPython"
STUB = "array data allocator (NEP 49 handler) for failing allocations; the model counts in Python integers"
ASSUMPTIONS = ["integer outputs count modulo 2**bits; float16 outputs are compared to their precision"]
INTS = "bBhHiIlLqQ"


def gen(rng, tier):
    nd = rng.choice([1, 1, 1, 2, 2, 3])
    ax = rng.randrange(nd)
    outer = [rng.choice([1, 2, 3, 1, 2, 5, 0] if rng.random() < .5 else [1, 2]) for _ in range(nd - 1)]
    outs = []
    for _ in range(rng.choice([1, 1, 2])):
        outs.append({"t": rng.choice("bhilqllefdggFDG" if rng.random() < .9 else "BHIL"), "lay": D.rand_layout(rng, nd, plain=.4),
                     "frac": int(rng.random() < .4), "inf": rng.choice([-1, 1]) if rng.random() < .12 else 0})
    ev = []
    for _ in range(rng.choice([1, 2, 3, 5, 8, 14])):
        q = rng.random()
        e = {"do": "count", "o": rng.randrange(len(outs)), "t": rng.choice(INTS), "n": rng.choice(
            [0, 1, 2, 3, 7, 16, 40] if rng.random() < .97 else [257, 300, 700, 1100]),
            "v": rng.choice(["in", "in", "mix", "mix", "ext", "neg", "runs"]),
            "w": rng.choice(["", "", "", "f", "d", "b", "B", "h", "H", "i", "I", "l", "L", "e", "F", "D", "q", "g", "G", "=", "="]),
            "wb": rng.choice([0, 0, 1, 2, 0, 0, 1, 2, 3]), "xb": int(rng.random() < .06), "lx": D.rand_layout(rng, nd, plain=.5),
            "lw": D.rand_layout(rng, nd, plain=.5), "neg": int(rng.random() < .5), "s": rng.randrange(1 << 30)}
        if rng.random() < .3:
            # how the caller writes the integer arguments and the elements
            e["sp"] = [rng.randrange(8), rng.randrange(5), int(rng.random() < .25)]
        if q < .12:
            e["do"] = "bad"
            e["b"] = rng.choice(BADS)
        elif q < .27:
            e["k"] = rng.choice([1, 1, 2, 3, 4])
        elif q < .34:
            e["do"] = "alias"
        elif q < .42:
            e["o"] = -1
            e["mnone"] = int(rng.random() < .6)
        elif q < .46:
            e = {"do": "save"}
        elif q < .52:
            e = {"do": "crash", "lay": D.rand_layout(rng, nd, plain=.4)}
        ev.append(e)
    return {"nd": nd, "ax": ax, "outer": outer, "m": rng.choice([0, 1, 2, 3, 5, 9, 30, 130, 300]), "outs": outs,
            "ev": ev, "dseed": rng.randrange(1 << 40)}


BADS = ["float", "mneg", "mtype", "shape", "axis", "cast", "wtype", "wshape", "huge", "wcast", "bool", "object", "mraise",
        "mbig", "readonly", "wdead"]


def spell(n, how):
    """The integer n as one of the things that a caller may pass."""
    if how == 4:
        return np.array(n)
    if how in (2, 3, 7):
        for t in ({2: "bhi", 3: "BHI", 7: "bh"}[how]):
            ii = np.iinfo(t)
            if ii.min <= n <= ii.max:
                n = np.dtype(t).type(n)
                return np.array(n) if how == 7 else n
        return n
    return {0: int, 1: np.int64, 5: lambda v: Index(v), 6: lambda v: np.uint64(v) if v >= 0 else v}[how](n)


class Index:
    def __init__(self, v):
        self.v = v

    def __index__(self):
        if self.v is None:
            raise LookupError("no index")
        return self.v


def setup():
    ctx = {"f": reg.cached()}
    import ufunclab
    ctx["bincount"] = ufunclab.bincount
    X.np_install()
    return ctx


def target(case):
    return "bincount"


def values(r, e, shape, m):
    dt = np.dtype(e["t"])
    ii = np.iinfo(dt)
    x = r.integers(0, max(1, min(m, ii.max)), shape).astype(dt)
    if e["v"] == "in":
        return x
    if e["v"] == "runs":
        # long runs of equal elements
        f = x.reshape(-1)
        k = 0
        while k < f.size:
            q = int(r.choice([1, 2, 5, 255, 256, 257, 600]))
            f[k:k + q] = f[k]
            k += q
        return f.reshape(shape)
    f = x.reshape(-1)
    cand = [m, m + 1, m - 1, -1, -m, ii.max, ii.min, 2**8 + m - 1, 2**16 + m - 1, 2**32 + m - 1, 2**8, 2**16, 2**32,
            -2**8, -2**16, -2**32, -2**8 + m - 1, 2**63, 2**63 + m - 1, 2**64 - 1, 2**64 - m, 2**31, -2**31, 2**7, 2**15]
    if e["v"] == "neg":
        cand = [c for c in cand if c < 0]
    cand = [c for c in cand if ii.min <= c <= ii.max] or [0]
    p = {"mix": .3, "ext": .8, "neg": .7}[e["v"]]
    for k in range(f.size):
        if r.random() < p:
            f[k] = cand[int(r.integers(0, len(cand)))]
    return f.reshape(shape)


class Num:
    """An exact complex number"""

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __eq__(self, o):
        o = parts(o)
        return self.re == o[0] and self.im == o[1]

    def __repr__(self):
        return f"{self.re}" if self.im == 0 else f"{self.re}+{self.im}j"


PLAIN = (int, float, complex)


def parts(v):
    if isinstance(v, Num):
        return v.re, v.im
    return Fraction(v.real), Fraction(v.imag)


def plus(a, b):
    if type(a) in PLAIN and type(b) in PLAIN:
        return a + b
    for u, v in ((a, b), (b, a)):
        if type(u) is not Num and not np.isfinite(u):       # stays what it is, part by part
            v = parts(v)
            return u + (complex(*map(float, v)) if type(u) is complex else float(v[0]))
    (p, q), (r, s) = parts(a), parts(b)
    return Num(p + r, q + s)


def exact(v):
    """The number, in a type that holds it (and sums of such numbers) exactly"""
    if isinstance(v, (np.longdouble, np.clongdouble)):
        if not np.isfinite(v):
            return complex(v) if isinstance(v, np.clongdouble) else float(v)
        return Num(Fraction(*v.real.as_integer_ratio()), Fraction(*v.imag.as_integer_ratio()))
    return v.item()


def flt(v):
    return float(parts(v)[0])


def wrap(v, dt):
    """The value as the type holds it"""
    if dt.kind in "iu":
        v = int(v) % (1 << 8 * dt.itemsize)
        if dt.kind == "i" and v >= 1 << (8 * dt.itemsize - 1):
            v -= 1 << 8 * dt.itemsize
        return v
    return v


class Out:
    def __init__(self, vals, lay):
        self.n = 0
        self.place(vals, lay)
        self.model = np.empty(vals.shape, object)
        for i in np.ndindex(*vals.shape):
            self.model[i] = exact(vals[i])

    def place(self, vals, lay):
        self.v, self.base = mem.exact(vals, lay, 0x5A)

    def check(self):
        dt = self.v.dtype
        for i in np.ndindex(*self.model.shape):
            have, want = exact(self.v[i]), wrap(self.model[i], dt)
            if have != want:
                if dt.char == "e" and abs(have - flt(want)) <= 2e-3 * self.n * (40 * 8 * self.n + 4 + abs(flt(want))):
                    continue
                return f"bin {i} holds {have!r}, expected {want!r}"
        return None


def add(model, x, w, ax):
    """The exact count; x, w: integer and weight arrays broadcast to a common outer shape."""
    mo = np.moveaxis(model, ax, -1)
    m = mo.shape[-1]
    xs = np.moveaxis(x, ax, -1)
    ws = None if w is None else np.moveaxis(w, ax, -1)
    for i in np.ndindex(*xs.shape[:-1]):
        for j in range(xs.shape[-1]):
            k = int(xs[i][j])
            if 0 <= k < m:
                mo[i + (k,)] = plus(mo[i + (k,)], 1 if ws is None else exact(ws[i][j]))


def run(case, ctx):
    bc = ctx["bincount"]
    nd, ax, m = case["nd"], case["ax"], case["m"]
    outer = case["outer"]
    r = np.random.Generator(np.random.PCG64(case["dseed"]))
    st = {"op:bincount": 0}
    oshape = tuple(outer[:ax] + [m] + outer[ax:])
    outs = []
    for o in case["outs"]:
        dt = np.dtype(o["t"])
        v = r.integers(0, 100, oshape)
        if dt.kind in "fc" and o["frac"]:
            v = v + r.integers(0, 4, oshape) / 4
            if dt.kind == "c":
                v = v + 1j * r.integers(-4, 5, oshape)
        if case["dseed"] % 3 == 0 and dt.char != "e" and dt.itemsize >= 4:
            # values that need all the digits of the type
            big = 2 ** 20 if dt.char in "fF" else 2 ** 30 if dt.itemsize == 4 else \
                2 ** 59 + 1 if dt.char in "gG" else 2 ** 45
            v = v + big * r.integers(0, 2, oshape)
        v = v.astype(dt)
        if o.get("inf") and dt.kind in "fc" and dt.char != "e" and v.size:
            # a bin that is infinite stays infinite; its neighbours do not
            v.reshape(-1)[int(r.integers(0, v.size))] = o["inf"] * np.inf
        outs.append(Out(v, o["lay"]))
    saved = None
    bad = None
    hist = []
    for e in case["ev"]:
        st["steps"] = st.get("steps", 0) + 1
        if e["do"] == "save":
            saved = [(o.v.copy(), o.model.copy(), o.n) for o in outs]
            continue
        if e["do"] == "crash":
            st["fault:crash"] = st.get("fault:crash", 0) + 1
            if saved:
                for o, (v, mo, n) in zip(outs, saved):
                    o.v[...] = 1
                    o.place(v.astype(v.dtype.newbyteorder("=")), e["lay"])
                    o.model = mo.copy()
                    o.n = n
            continue
        bad, tag = step(case, e, outs, bc, r, st)
        hist.append(tag)
        if not bad:
            for k, o in enumerate(outs):
                msg = o.check()
                if msg:
                    bad = ("count", f"out {k} ({o.v.dtype}): {msg}")
        if bad:
            break
    v = None
    if bad:
        v = {"kind": bad[0], "target": "bincount",
             "detail": f"nd={nd} axis={ax} outer={outer} m={m} outs={[o['t'] for o in case['outs']]}, calls {hist[-6:]}: {bad[1]}"}
    q = {k: x for k, x in case.items() if k != "dseed"}
    sig = hashlib.sha256(repr(sorted(q.items())).encode()).hexdigest()[:16]
    d = hashlib.sha256(repr((hist, [o.model.tolist() for o in outs])).encode()).hexdigest()[:16]
    return v, d, any(o.n > 1 for o in outs), sig, st


def step(case, e, outs, bc, r, st):
    nd, ax, m, outer = case["nd"], case["ax"], case["m"], case["outer"]
    o = outs[e["o"]] if e["o"] >= 0 else None
    axis = ax - nd if e["neg"] else ax
    st["op:bincount"] += 1
    if e["do"] == "bad":
        st["fault:rejected_call"] = st.get("fault:rejected_call", 0) + 1
        return rejected(case, e, outs, bc, r), "bad-" + e["b"]
    if e["do"] == "alias":
        # the output is also the input
        if o.v.dtype.kind not in "iu":
            return None, "-"
        if o.v.dtype.kind == "u":
            return None, "-"
        x = o.v.copy()
        add(o.model, x, None, ax)
        o.n += 1
        res = bc(o.v, m, out=o.v, axis=axis)
        return (None if res is o.v else ("identity", "the result is not out")), "alias"
    shape = tuple(outer[:ax] + [e["n"]] + outer[ax:])
    small = o is None and e.get("mnone")
    if e.get("xb"):     # one element, seen n times
        x = np.broadcast_to(values(r, e, outer[:ax] + [1] + outer[ax:], m), shape)
    else:
        x = values(r, e, shape, m)
    if small:
        with np.errstate(all="ignore"):
            x = np.where(x.astype(object) > 300, 3, x.astype(object)).astype(e["t"]) if x.size else x
    w = wf = None
    if e["w"]:
        wt = e["w"] if e["w"] != "=" else (o.v.dtype.char if o is not None else "l")
        wt = np.dtype(wt)
        if o is not None and not np.can_cast(wt, o.v.dtype, "same_kind"):
            wt = np.dtype(o.v.dtype.char)
        if o is not None and o.v.dtype.kind == "i" and wt.kind == "u" and wt.itemsize >= 8:
            wt = np.dtype("h")
        wshape = list(shape)
        wb3 = e["wb"] == 3 and wt.char != "e" and (o is None or o.v.dtype.char != "e")     # (sums need digits)
        if wb3:
            wshape[ax] = 1
        elif e["wb"] == 1:
            wshape = [z if k == ax else 1 for k, z in enumerate(shape)]
        elif e["wb"] == 2 and axis == -1:
            wshape = [shape[-1]]
        if wt.kind in "iu":
            w = r.integers(0 if wt.kind == "u" else -8, 9, wshape).astype(wt)
        else:
            w = (r.integers(-32, 33, wshape) / 4).astype(wt)
            if wt.kind == "c":
                w = (w + 1j * r.integers(-4, 5, wshape)).astype(wt)
        wf = np.broadcast_to(w, shape)
    elif o is not None and o.v.dtype.kind == "u":
        return None, "-"
    if e.get("xb"):
        xv, xb = mem.exact(x[(slice(None),) * ax + (slice(0, 1),)] if x.size else x, e["lx"], 0x33)
        xv = np.broadcast_to(xv, shape)
    else:
        xv, xb = mem.exact(x, e["lx"], 0x33)
    xcopy = xb.copy()
    kw = {"axis": axis}
    if w is not None:
        lw = dict(e["lw"])
        wv, wb = mem.exact(w, lw, 0x44)
        kw["weights"] = np.broadcast_to(wv, shape) if wb3 else wv
        wcopy = wb.copy()
    if o is not None:
        kw["out"] = o.v
    sp = e.get("sp") or [0, 0, 0]
    margs = () if small else (spell(m, sp[0]),)
    if sp[1]:
        kw["axis"] = spell(axis, [0, 1, 2, 4, 1][sp[1]])
    if sp[2] and x.size:
        # (nested) lists of Python integers
        xv = x.tolist()
        try:
            if np.asarray(xv).dtype.kind not in "iu":
                xv = x
        except OverflowError:
            xv = x
    tag = (e["t"], e["n"], e["v"], str(w.dtype) if w is not None else "", e.get("k", 0))
    faults = e.get("k", 0)
    res = None
    for attempt in range(2):
        try:
            if faults and attempt == 0:
                X.np_arm(faults)
            try:
                with np.errstate(all="ignore"):
                    res = bc(xv, *margs, **kw)
            finally:
                if faults and attempt == 0:
                    n, f = X.np_disarm()
        except MemoryError:
            if not (faults and attempt == 0 and f):
                return ("raised-MemoryError", "without an allocation failing"), tag
            st["fault:allocation"] = st.get("fault:allocation", 0) + 1
            # nothing was counted; the caller repeats the call
            for k, q in enumerate(outs):
                msg = q.check()
                if msg:
                    return ("failed-call-counted", f"after MemoryError out {k}: {msg}"), tag
            continue
        except ValueError as exc:
            if small and x.size == 0:
                return None, tag
            return ("raised-ValueError", repr(exc)), tag
        except TypeError as exc:
            return ("raised-TypeError", repr(exc)), tag
        break
    if res is None:
        return ("raised-MemoryError", "the repeated call failed"), tag
    if not np.array_equal(xb.view(np.uint8), xcopy.view(np.uint8)) or \
            (w is not None and not np.array_equal(wb, wcopy)):
        return ("input-modified", "an argument was modified"), tag
    if o is not None:
        o.n += 1
        add(o.model, x, wf, ax)
        if res is not o.v:
            return ("identity", "the result is not out"), tag
        return None, tag
    mm = m
    if small:
        big = max([int(z) for z in x.reshape(-1)], default=-1)
        mm = max(big + 1, 0)
    want = np.zeros(tuple(outer[:ax] + [mm] + outer[ax:]), object)
    add(want, x, wf, ax)
    if res.shape != want.shape:
        return ("shape", f"without out: shape {res.shape}, expected {want.shape}"), tag
    for i in np.ndindex(*want.shape):
        if exact(res[i]) != wrap(want[i], res.dtype):
            if res.dtype.char == "e" and abs(exact(res[i]) - flt(want[i])) < 2:
                continue
            return ("count", f"without out: bin {i} holds {exact(res[i])!r}, expected {want[i]!r}"), tag
    return None, tag


def rejected(case, e, outs, bc, r):
    """A call that must be refused, and then has counted nothing (checked by the caller)."""
    nd, ax, m, outer = case["nd"], case["ax"], case["m"], case["outer"]
    o = outs[e["o"]].v
    n = max(2, e["n"])
    x = r.integers(0, max(1, m), tuple(outer[:ax] + [n] + outer[ax:]))
    b = e["b"]
    kw = {"axis": ax, "out": o}
    args = [x, m]
    if b == "float":
        args[0] = x.astype("d")
    elif b == "mneg":
        args[1] = -1 - m
    elif b == "mtype":
        args[1] = 2.5
    elif b == "shape":
        args[1] = m + 1
    elif b == "axis":
        kw["axis"] = nd + 1
    elif b == "cast":
        kw["out"] = np.zeros(o.shape, "?")
    elif b == "wtype":
        kw["weights"] = np.full(x.shape, "a")
    elif b == "wshape":
        kw["weights"] = np.ones(tuple(outer[:ax] + [n + 1] + outer[ax:]))
    elif b in ("bool", "object"):
        args[0] = x.astype(b)
    elif b == "mraise":
        args[1] = Index(None)
    elif b == "mbig":
        args[1] = 2 ** 70 + m
    elif b == "readonly":
        if o.size == 0:
            return None
        kw["out"] = o.view()
        kw["out"].flags.writeable = False
    elif b == "wdead":
        kw["weights"] = np.full(x.shape, None)
    elif b == "wcast":
        if o.dtype.kind == "c":
            return None
        kw["weights"] = np.ones(x.shape, "D")
    elif b == "huge":
        if not x.size:
            return None
        args = [np.full(x.shape, 2**63 - 2 + (e["s"] & 1) * 2**62, np.uint64)]
        del kw["out"]
    try:
        bc(*args, **kw)
    except (ValueError, TypeError, MemoryError, OverflowError, LookupError):
        return None
    return "accepted", f"a wrong call ({b}) was accepted"


def shrinks(case):
    ev = case["ev"]
    n = len(ev)
    k = max(1, n // 2)
    while n > 1 and k >= 1:
        for i in range(0, n, k):
            if len(ev[:i] + ev[i + k:]):
                yield dict(case, ev=ev[:i] + ev[i + k:])
        if k == 1:
            break
        k //= 2
    if len(case["outs"]) > 1:
        yield dict(case, outs=case["outs"][:1], ev=[dict(e, o=min(e["o"], 0)) if "o" in e else e for e in ev])
    if case["nd"] > 1:
        yield dict(case, nd=1, ax=0, outer=[])
    for q in (1, 3, case["m"] // 2):
        if q < case["m"]:
            yield dict(case, m=q)
    for i, e in enumerate(ev):
        for k, z in (("lx", {}), ("lw", {}), ("lay", {}), ("wb", 0), ("w", ""), ("k", 0), ("neg", 0), ("v", "in"), ("n", 1),
                     ("n", 2), ("t", "l"), ("sp", [0, 0, 0])):
            if k in e and e[k] != z and not (k == "n" and e[k] < z):
                yield dict(case, ev=ev[:i] + [dict(e, **{k: z})] + ev[i + 1:])
    for i, o in enumerate(case["outs"]):
        for k, z in (("lay", {}), ("frac", 0), ("t", "l")):
            if o[k] != z:
                yield dict(case, outs=case["outs"][:i] + [dict(o, **{k: z})] + case["outs"][i + 1:])
