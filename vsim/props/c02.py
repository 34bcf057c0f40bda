"""C02: the result of each core slice does not depend on how the slices are delivered."""

import numpy as np

from .. import deliver as D
from .. import reg
from . import c01

ID = "C02"
LEVEL = "exploration"
VARIANT = "plain"
ENV = {}
RUNS = {"quick": 250000, "thorough": 4000000}
RULE = ("one run = one logical call of a random generalized ufunc/loop or of a Python wrapper with "
        "axis= and out=, delivered along a random plan (chunks of the outer loop and their order, "
        "core and outer strides, axes, byte order, alignment, casting buffers, aliasing of out, "
        "prior contents of out); non-trivial when the plan has at least one delivery fault; "
        "distinct by function, loop and plan without the data")
MEASURE = c01.MEASURE
REAL = ("ufunclab gufunc loops as compiled for release, ufunclab._wrapped; NumPy's dispatcher and "
        "iterator (API runs)")
STUB = c01.STUB
ASSUMPTIONS = ["NumPy's own casting, byte swapping and axis handling are correct",
               "the reference is the same loop fed one slice per call on private contiguous memory",
               "floating results may differ by rounding of a reordered sum (1e-11 relative for "
               "float64), everything else must be identical"]
WRAPPED = ["bincount", "bincountw", "convert_to_base", "nextn_greater", "nextn_less", "one_hot"]


def gen(rng, tier):
    fs = reg.cached()
    if rng.random() < .15:
        return gen_wrapped(rng)
    g = [f for f in fs.values() if f.gufunc]
    f = g[rng.randrange(len(g))]
    p = D.gen_plan(rng, f, big=rng.choice([.12, .12, .5]))
    if rng.random() < .3:
        p["hw"] = [rng.choice([0, .001, .01, .05, .3, 1.0]) for _ in range(f.nin)]
    return D.share(rng, f, p)


def gen_wrapped(rng):
    w = rng.choice(WRAPPED)
    nd = rng.choice([1, 1, 2, 2, 3]) if w.startswith("bin") else rng.choice([0, 1, 1, 2, 3])
    shape = [rng.choice([1, 2, 3, 4, 5, 7]) for _ in range(nd)]
    n_out = nd if w.startswith("bin") else nd + 1
    ax = rng.randrange(n_out)
    c = {"w": w, "f": "w:" + w, "dseed": rng.randrange(1 << 40), "shape": shape,
         "axis": ax - (n_out if rng.random() < .5 else 0), "n": rng.choice([1, 2, 3, 5, 9]),
         "defm": int(rng.random() < .3), "out": int(rng.random() < .5),
         "lay": [D.rand_layout(rng, nd) for _ in range(2)] + [D.rand_layout(rng, n_out)],
         "tc": {"bincount": rng.choice("bBhHiIlLqQ"), "bincountw": rng.choice("bBhHiIlLqQ"),
                "convert_to_base": rng.choice("bBhHiIlLqQ"),
                "one_hot": rng.choice("bhilq")}.get(w, rng.choice("fdg")),
         "wt": rng.choice("fd"), "poison": rng.choice(D.POISON)}
    return c


def setup():
    return {"f": reg.cached()}


def target(case):
    return case["f"]


def run_wrapped(case, keep=None):
    import ufunclab
    w = case["w"]
    r = np.random.Generator(np.random.PCG64(case["dseed"]))
    shape = tuple(case["shape"])
    n = case["n"]
    tc = case["tc"]
    nd = len(shape)
    isbin = w.startswith("bin")
    n_out = nd if isbin else nd + 1
    ax = case["axis"] % n_out
    st = {"op:" + w: 1, "steps": 1, "fault:axes": 1}
    for lay in case["lay"]:
        for k, q in (("swap", "byteswap"), ("unal", "misalign")):
            if lay.get(k):
                st["fault:" + q] = 1
    if isbin:
        x = r.integers(-2 if tc not in "BHILQ" else 0, 7, shape).astype(tc)
        m = None if case["defm"] else n
        mm = max(int(x.max()) + 1, 0) if m is None else m
        xs = np.moveaxis(x, ax, -1)
        oshape = list(shape)
        oshape[ax] = mm
        odt = np.dtype(np.intp) if w == "bincount" else np.dtype(case["wt"])
        # An integer type other than NumPy's default may be what bincount returns; out= decides it
        init = r.integers(0, 4, oshape).astype(odt) if case["out"] else np.zeros(oshape, odt)
        ref = np.moveaxis(init.copy(), ax, -1)
        wts = r.integers(-4, 5, shape).astype(case["wt"]) / 2 if w == "bincountw" else None
        wts = None if wts is None else wts.astype(case["wt"])
        ws = None if wts is None else np.moveaxis(wts, ax, -1)
        for i in np.ndindex(*xs.shape[:-1]):
            for j in range(xs.shape[-1]):
                v = int(xs[i][j])
                if 0 <= v < mm:
                    ref[i][v] += 1 if ws is None else ws[i][j]
        ref = np.moveaxis(ref, -1, ax)
        args = [x]
        kw = {} if m is None else {"m": m}
        if wts is not None:
            kw["weights"] = wts
    else:
        oshape = shape[:ax] + (n,) + shape[ax:]
        if w == "convert_to_base":
            k = r.integers(0, 100, shape).astype(tc)
            b = r.integers(2, 9, shape).astype(tc)
            odt = np.dtype(int)
            ref = np.empty(shape + (n,), odt)
            for i in np.ndindex(*shape):
                q, bb = int(k[i]), int(b[i])
                for j in range(n):
                    ref[i][j] = q % bb
                    q //= bb
            args = [k, b, n]
        elif w == "one_hot":
            k = r.integers(0 if tc in "BHILQ" else -2, n + 2, shape).astype(tc)
            odt = k.dtype
            ref = np.empty(shape + (n,), odt)
            for i in np.ndindex(*shape):
                for j in range(n):
                    ref[i][j] = int(int(k[i]) == j)
            args = [k, n]
        else:
            x = (r.integers(-8, 9, shape) / 4).astype(tc)
            odt = x.dtype
            up = odt.type(np.inf if w == "nextn_greater" else -np.inf)
            ref = np.empty(shape + (n,), odt)
            for i in np.ndindex(*shape):
                v = x[i]
                for j in range(n):
                    v = np.nextafter(v, up)
                    ref[i][j] = v
            args = [x, n]
        ref = np.moveaxis(ref, -1, ax)
        init = None
        if case["out"]:
            b = np.empty(D.prod(oshape) * odt.itemsize, np.uint8)
            b[:] = case["poison"]
            init = b.view(odt).reshape(oshape)
        kw = {}
    lays = []
    nd_in = len(shape)
    li = 0
    for i, a in enumerate(args):
        if isinstance(a, np.ndarray) and a.ndim == nd_in and li < 2:
            lay = dict(case["lay"][li])
            if w.startswith("nextn"):
                pass
            L = D.Layout(a, lay, case["poison"])
            li += 1
            lays.append(L)
            args[i] = L.view
    if "weights" in kw:
        L = D.Layout(kw["weights"], case["lay"][1], case["poison"])
        lays.append(L)
        kw["weights"] = L.view
    LO = None
    if case["out"]:
        LO = D.Layout(init, case["lay"][2], case["poison"])
        kw["out"] = LO.view
        st["fault:prior_contents"] = 1
    kw["axis"] = case["axis"]
    name = "bincount" if isbin else w
    try:
        res = getattr(ufunclab, name)(*args, **kw)
    except Exception as e:
        return {"kind": f"raised-{type(e).__name__}", "target": name, "detail": repr(e)}, "exc", st
    bad = None
    res = np.asarray(res)
    for k, L in enumerate(lays):
        if L.changed():
            bad = ("input-modified", f"input {k} was modified")
    if LO is not None:
        if LO.outside_changed():
            bad = ("stray-write", "memory outside out was modified")
        if not np.shares_memory(res, LO.view) and res.size:
            bad = ("out-not-returned", "the returned array is not out")
    if keep is not None:
        keep.append(res)
    res = D.native(res)
    ref = ref.astype(odt)
    if not bad:
        if res.shape != ref.shape:
            bad = ("shape", f"shape {res.shape}, expected {ref.shape}")
        elif not D.nan_eq(res, ref.astype(res.dtype)):
            i = D.first_diff(res, ref.astype(res.dtype), True)
            bad = ("value", f"{name}(axis={case['axis']}) differs at {i}: got {res[i]!r}, "
                   f"expected {ref[i]!r}")
    v = {"kind": bad[0], "target": name, "detail": bad[1]} if bad else None
    return v, D.digest([res]), st


def run(case, ctx):
    if "w" in case:
        v, d, st = run_wrapped(case)
        q = {k: x for k, x in case.items() if k != "dseed"}
        return v, d, True, repr(sorted(q.items(), key=lambda z: z[0])), st
    return c01.run(case, ctx)


def shrinks(case):
    if "w" in case:
        for i in range(3):
            if case["lay"][i]:
                l = list(case["lay"])
                l[i] = {}
                yield dict(case, lay=l)
        for k in ("out", "defm"):
            if case[k]:
                yield dict(case, **{k: 0})
        for i, m in enumerate(case["shape"]):
            if m > 1:
                yield dict(case, shape=case["shape"][:i] + [m - 1] + case["shape"][i + 1:])
        if case["n"] > 1:
            yield dict(case, n=case["n"] - 1)
        return
    yield from D.shrink_plan(case)
