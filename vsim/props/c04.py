"""C04: calls touch only their operands, and results never depend on stray memory."""

import hashlib

import numpy as np

from .. import deliver as D
from .. import mem
from .. import reg
from . import c02

try:
    import _simext as X
except ImportError:
    X = None

ID = "C04"
LEVEL = "exploration"
VARIANT = "plain"
ENV = {"SIMRT_HEAP": "1"}
RUNS = {"quick": 130000, "thorough": 1000000}
RULE = ("one run = one call (ufunc, gufunc, wrapper or gendot gufunc) with hostile values (extremes, NaN, "
        "infinities, indices outside the core dimensions) and core dimensions including 0 and 1, "
        "executed in three simulated memories that differ in where blocks lie (guard page right after, "
        "guard page right before, ordinary heap), in what fresh array, heap and stack memory holds, "
        "and in what surrounds each operand; non-trivial when the call returned a result; distinct by "
        "function, loop, shapes, layouts and keywords")
MEASURE = "hash of (function, loop, shapes, layouts, keywords, share of hostile values)"
REAL = "ufunclab as compiled for release, its Python wrappers, NumPy's ufunc machinery"
STUB = "array data allocator (NEP 49 handler) and malloc, with guard pages, canaries and seeded contents"
ASSUMPTIONS = ["NumPy does not itself expose uninitialised memory",
               "an access beyond a guard page or to a differing neighbour is what counts as stray; "
               "an out-of-bounds read that changes nothing and faults nowhere is not seen"]

PRODS = ["multiply", "add", "subtract", "minimum", "maximum", "logical_and", "logical_or", "equal",
         "greater", "hypot", "power", "bitwise_and", "left_shift", "ldexp", "arctan2", "floor_divide"]
SUMS = ["add", "multiply", "maximum", "minimum", "logical_or", "logical_and", "bitwise_or", "bitwise_xor",
        "ul:gmean", "ul:hmean", "ul:rms", "ul:kbnsum", "ul:all_same", "ul:argmax", "ul:argmin",
        "ul:peaktopeak"]


def gd_func(n):
    import ufunclab
    return getattr(ufunclab, n[3:]) if n.startswith("ul:") else getattr(np, n)


def gen(rng, tier):
    fs = reg.cached()
    names = list(fs)
    q = rng.random()
    wildf = rng.choice([0, .1, .3, .6, 1.0])
    if q < .12:
        c = c02.gen_wrapped(rng)
        c["wild"] = wildf
        if c["tc"] not in "bBhH":
            c["defm"] = 0
        for l in c["lay"]:
            l.pop("unal", None)
        return c
    if q < .2:
        return {"gd": [rng.choice(PRODS), rng.choice(SUMS)], "f": "gendot", "loop": rng.randrange(1 << 20),
                "n": rng.choice([0, 1, 1, 2, 3, 5, 8, 17, 100, 1000]), "N": rng.choice([0, 1, 2, 5]),
                "lay": [D.rand_layout(rng, 2) for _ in range(3)], "dseed": rng.randrange(1 << 40),
                "wild": rng.choice([0, 0, .2]), "out": int(rng.random() < .5)}
    g = [n for n in names if fs[n].gufunc]
    f = fs[rng.choice(g)] if rng.random() < .75 else fs[rng.choice(names)]
    plan = D.gen_plan(rng, f, raw=False, big=.05)
    for k in ("alias", "cast", "where"):
        plan.pop(k, None)
    if f.gufunc and not plan["out"] and f.out_dims():
        plan["out"] = 1
    for d in plan["core"]:
        if rng.random() < .3:
            plan["core"][d] = rng.choice([0, 1, 1, 2])
    if D.prod(plan["outer"]) > 24 and f.gufunc:
        plan["outer"] = [rng.choice([2, 3, 7])] * len(plan["outer"])
    while D.prod(plan["outer"]) > 100:
        plan["outer"] = [max(1, x // 2) for x in plan["outer"]]
    for l in plan["lay"]:
        l.pop("unal", None)
    plan["wild"] = wildf
    plan["wm"] = [int(rng.random() < .7) for _ in range(f.nin)]
    return plan


def setup():
    import ufunclab
    for n in ufunclab.__all__:
        getattr(ufunclab, n)
    ctx = {"f": reg.cached(), "gd": {}}
    ul, rt = mem.module_ranges()
    X.heap_ranges(ul, 0)
    X.heap_ranges(rt, 1)
    X.np_install()
    return ctx


def target(case):
    return case["f"]


CONF = [(1, 0x00, 0xA5, 0x00), (2, 0xFF, 0x3C, 0xFF), (0, -2, 0x7F, -2)]


def in_memory(conf, seed, make):
    """Runs make(fill) -> (function, inputs, copies) in one simulated memory."""
    place, fill, can, hfill = conf
    b = fill if fill >= 0 else seed % 251
    X.np_config(place, fill, seed, can)
    X.np_status()
    try:
        call, keep, before = make(b)
        X.heap_fill(hfill, seed)
        X.heap_arm(0, 4, 1)
        X.stack_fill(b)
        try:
            with np.errstate(all="ignore"):
                res = call()
            out = ("ok", None)
        except Exception as e:
            res = ()
            out = ("exc", type(e).__name__)
        _, _, _, nerr, _, msg = X.heap_disarm()
        X.heap_fill(-1, 0)
        if not isinstance(res, tuple):
            res = (res,)
        res = [np.asarray(r) for r in res]
        bad = None
        if nerr:
            bad = ("heap", msg)
        st = X.np_status()
        if st[2]:
            bad = ("stray-write", st[3])
        for k, (x, y) in enumerate(zip(keep, before)):
            if x.dtype == object:
                ch = any(p is not q for p, q in zip(x, y))
            else:
                ch = not np.array_equal(x, y)
            if ch:
                bad = ("input-modified", f"the memory block of input {k} was modified")
        X.np_config(0, -1, 1, 0xA5)
        outs = [D.native(r) for r in res]
        call = keep = before = res = None
    finally:
        X.heap_disarm()
        X.heap_fill(-1, 0)
        X.np_config(0, -1, 1, 0xA5)
    st = X.np_status()
    if st[2] and not bad:
        bad = ("stray-write", st[3])
    return out, outs, bad


def make_plan(f, plan, ctx):
    with np.errstate(all="ignore"):
        ins = D.logical_inputs(f, plan)
        ins = [mem.wild(a, plan["wild"] * plan["wm"][k], plan["dseed"] + 31 * k, plan["core"])
               for k, a in enumerate(ins)]

    def make(fill):
        args, kw, keep, before = mem.build_call(f, plan, ins, fill)

        def call():
            old = np.getbufsize()
            np.setbufsize(plan["buf"])
            try:
                return f.uf(*args, **kw)
            finally:
                np.setbufsize(old)
        return call, keep[:f.nin], before
    return make


class Index:
    """An integer to operator.index(), which needs array memory to say so."""

    def __init__(self, v):
        self.v = v

    def __index__(self):
        return int(np.full(3, self.v)[1])


def spell(n, how):
    """The integer n as one of the things that a caller may pass."""
    return [int, np.int64, lambda v: np.array(v, np.int16), Index][how](n)


def make_wrapped(c):
    import ufunclab
    w = c["w"]
    r = np.random.Generator(np.random.PCG64(c["dseed"]))
    shape = tuple(c["shape"])
    n, tc = c["n"], c["tc"]
    isbin = w.startswith("bin")
    n_out = len(shape) + (0 if isbin else 1)
    ax = c["axis"] % n_out
    core = {"n": n, "m": shape[ax] if isbin else 0}
    kw = {"axis": c["axis"]}
    if tc in "fdg":
        x = (r.integers(-8, 9, shape) / 4).astype(tc)
    else:
        x = r.integers(-2 if tc not in "BHILQ" else 0, 7, shape).astype(tc)
    arrs = [mem.wild(x, c["wild"], c["dseed"] + 1, core)]
    if w == "convert_to_base":
        b = r.integers(2, 9, shape).astype(tc)
        arrs.append(mem.wild(b, c["wild"] if c["dseed"] & 1 else 0, c["dseed"] + 2, core))
    if w == "bincountw":
        arrs.append(mem.wild((r.integers(-4, 5, shape) / 2).astype(c["wt"]), c["wild"], c["dseed"] + 3, {}))
    odt = {"bincount": np.dtype(np.intp), "bincountw": np.dtype(c["wt"]),
           "convert_to_base": np.dtype(int)}.get(w, x.dtype)
    if isbin:
        m = n
        if c["defm"]:
            mx = max([0] + [int(v) + 1 for v in arrs[0].ravel()])
            m = mx
        oshape = shape[:ax] + (m,) + shape[ax + 1:]
    else:
        oshape = shape[:ax] + (n,) + shape[ax:]
    init = np.zeros(oshape, odt)
    if isbin:
        init[...] = r.integers(0, 4, oshape)

    def make(fill):
        vs, keep, before = [], [], []
        for i, a in enumerate(arrs):
            v, b = mem.exact(a, c["lay"][i], fill)
            vs.append(v)
            keep.append(b)
            before.append(b.copy())
        k2 = dict(kw)
        if c["out"]:
            if isbin:
                ini = init
            else:
                ini = np.empty(D.prod(oshape) * odt.itemsize, np.uint8)
                ini[:] = fill
                ini = ini.view(odt).reshape(oshape)
            k2["out"] = mem.exact(ini, c["lay"][2], fill)[0]
        if isbin:
            a = [vs[0]] + ([] if c["defm"] else [spell(n, c.get("ix", 0))])
            if len(vs) > 1:
                k2["weights"] = vs[1]
            return (lambda: ufunclab.bincount(*a, **k2)), keep, before
        a = vs + [spell(n, c.get("ix", 0))]
        return (lambda: getattr(ufunclab, w)(*a, **k2)), keep, before
    return make


def make_gd(c, ctx):
    import ufunclab
    key = tuple(c["gd"])
    if key not in ctx["gd"]:
        try:
            g = ufunclab.gendot(gd_func(key[0]), gd_func(key[1]))
            ctx["gd"][key] = g if g.types and not any(
                ch in "mM" for t in g.types for ch in t) or g.types else None
        except Exception:
            ctx["gd"][key] = None
    g = ctx["gd"][key]
    types = [t for t in g.types if not set(t) & set("mMO")] if g is not None else []
    if not types:
        return None
    t = types[c["loop"] % len(types)]
    r = np.random.Generator(np.random.PCG64(c["dseed"]))
    ins = []
    for k in range(2):
        a = np.asarray(r.integers(0, 2 if t[k] == "?" else 7, (c["N"], c["n"])), t[k])
        ins.append(mem.wild(a, c["wild"], c["dseed"] + k, {}))

    def make(fill):
        vs, keep, before = [], [], []
        for k, a in enumerate(ins):
            v, b = mem.exact(a, c["lay"][k], fill)
            vs.append(v)
            keep.append(b)
            before.append(b.copy())
        kw = {"signature": t}
        if c["out"]:
            dt = np.dtype(t[-1])
            ini = np.empty(c["N"] * dt.itemsize, np.uint8)
            ini[:] = fill
            kw["out"] = mem.exact(ini.view(dt), {}, fill)[0]
        return (lambda: g(*vs, **kw)), keep, before
    return make


def run(case, ctx):
    st = {}
    name = case["f"]
    detail = name
    if "w" in case:
        make = make_wrapped(case)
    elif "gd" in case:
        make = make_gd(case, ctx)
        detail = f"gendot({case['gd'][0]}, {case['gd'][1]})"
        if make is None:
            return None, "none", False, "", st
    else:
        f = ctx["f"][name]
        make = make_plan(f, case, ctx)
        detail = f"{name} {f.types[case['loop']]}"
    st["op:" + name] = 1
    st["fault:guard_after"] = st["fault:guard_before"] = st["fault:seeded_memory"] = 1
    if case["wild"]:
        st["fault:hostile_values"] = 1
    if case.get("core") and 0 in case["core"].values():
        st["fault:empty_core"] = 1
    res = [in_memory(c, case["dseed"] & 0xFFFFFF, make) for c in CONF]
    st["steps"] = 3
    v = None
    bad = None
    for out, outs, b in res:
        bad = bad or b
    if not bad:
        o0, r0, _ = res[0]
        for (o, r, _), c in zip(res[1:], CONF[1:]):
            if o != o0:
                bad = ("outcome", f"outcome {o0} in one memory and {o} in another")
                break
            for k, (x, y) in enumerate(zip(r0, r)):
                if x.shape != y.shape or x.dtype != y.dtype or not mem.native_eq(x, y):
                    i = None
                    if x.shape == y.shape and x.dtype != object:
                        i = D.first_diff(x, y, True)
                    bad = ("stray-read", f"output {k} depends on memory outside the operands"
                           + (f": at {i} it is {x[i]!r} in one memory and {y[i]!r} in another"
                              if i is not None else ""))
    if res[0][0][0] == "exc":
        st["rejected"] = 1
    if bad:
        v = {"kind": bad[0], "target": name, "detail": f"{detail}: {bad[1]}"}
    q = {k: x for k, x in case.items() if k not in ("dseed", "poison")}
    sig = hashlib.sha256(repr(sorted(q.items())).encode()).hexdigest()[:16]
    d = hashlib.sha256((repr(res[0][0]) + D.digest([r for r in res[0][1] if r.dtype != object])).encode())
    return v, d.hexdigest()[:16], res[0][0][0] == "ok", sig, st


def shrinks(case):
    if "gd" in case:
        for k in ("n", "N"):
            for m in (1, 2, case[k] // 2, case[k] - 1):
                if 0 < m < case[k]:
                    yield dict(case, **{k: m})
        if case["wild"]:
            yield dict(case, wild=0)
        for i in range(3):
            if case["lay"][i]:
                yield dict(case, lay=case["lay"][:i] + [{}] + case["lay"][i + 1:])
        return
    if case["wild"]:
        yield dict(case, wild=0)
    yield from c02.shrinks(case)
