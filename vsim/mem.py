"""Operands at exact places in simulated memory, and hostile operand values."""

import numpy as np

from . import deliver as D
from . import reg


def exact(values, lay, fill):
    """A view holding values whose memory block begins and ends exactly with it."""
    dt = values.dtype
    obj = dt == object
    if lay.get("swap") and not obj:
        dt = dt.newbyteorder()
    shape = values.shape
    nd = len(shape)
    isz = dt.itemsize
    perm = [p for p in lay.get("perm", []) if p < nd]
    perm += [p for p in reversed(range(nd)) if p not in perm]
    gaps = lay.get("gap", [])
    negs = lay.get("neg", [])
    strides = [0] * nd
    s = isz
    start = 0
    end = isz if D.prod(shape) else 0
    for q, ax in enumerate(perm):
        st = s * (gaps[q] if q < len(gaps) else 1)
        n = shape[ax]
        span = st * max(0, n - 1)
        if q < len(negs) and negs[q]:
            start += span
            strides[ax] = -st
        else:
            strides[ax] = st
        if D.prod(shape):
            end += span
        s = st * max(1, n)
    if obj:
        base = np.empty(end // isz, object)
        v = np.lib.stride_tricks.as_strided(base[start // isz:], shape, strides) if end else \
            base.reshape(shape)
    else:
        base = np.empty(end, np.uint8)
        base[:] = fill
        v = np.ndarray(shape, dt, base, offset=start if end else 0, strides=strides)
    if D.prod(shape):
        v[...] = values
    return v, base


_POOL = {}


def pool(dt, core):
    ext = sorted({int(v) + d for v in core.values() for d in (-1, 0, 1)})
    key = (dt.char, tuple(ext))
    if key in _POOL:
        return _POOL[key]
    if dt.kind in "iu":
        ii = np.iinfo(dt)
        c = [ii.min, ii.max, ii.min + 1, ii.max - 1, 0, 1, 2, -1, -2, 3, 127, 128, 255, 256, 65535,
             2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**62, 2**63 - 1, 2**63, -2**31] + ext
        p = np.array([x for x in c if ii.min <= x <= ii.max], dtype=object).astype(dt)
    elif dt.kind == "f":
        fi = np.finfo(dt)
        p = np.array([np.nan, np.inf, -np.inf, 0.0, -0.0, fi.max, fi.min, fi.tiny, -fi.tiny,
                      fi.smallest_subnormal, fi.eps, 1.0, -1.0, 0.5, 2.0, -2.0, 170.0, 1e3, -1e3,
                      1.0 - fi.eps, 1.0 + fi.eps], dtype=dt)
    elif dt.kind == "c":
        r = pool(np.dtype({"F": "f", "D": "d", "G": "g"}[dt.char]), {})
        p = np.empty((len(r), len(r)), dt)
        p.real = r[:, None]
        p.imag = r[None, :]
        p = p.ravel()
    elif dt.kind == "O":
        p = np.empty(8, object)
        p[:] = [0, 1, -1, 2**70, -2**70, float("nan"), float("inf"), 0.5]
    else:
        p = np.array([False, True])
    _POOL[key] = p
    return p


def wild(a, frac, seed, core):
    """a with a fraction of its elements replaced by hostile values."""
    if frac <= 0 or a.size == 0:
        return a
    r = np.random.Generator(np.random.PCG64(seed))
    p = pool(a.dtype, core)
    m = r.random(a.shape) < frac
    w = np.empty(a.shape, p.dtype)
    w[...] = p[r.integers(0, len(p), a.shape)]
    out = np.array(a)
    np.copyto(out, w, where=m)
    if out.ndim and out.shape[-1] and seed % 5 < 2:
        rows(out, p, r)
    return out


def rows(out, p, r):
    """Gives some rows of out a pattern: constant, zero, sorted, a hostile first or last element..."""
    n = out.shape[-1]
    for i in np.ndindex(*out.shape[:-1]):
        q = int(r.integers(0, 16))
        v = p[int(r.integers(0, len(p)))]
        if out.dtype.kind == "f" and r.random() < .25:
            v = np.nan
        if q < 3:
            out[i] = v
        elif q == 3:
            out[i] = 0
        elif q == 4:
            out[i] = 1
        elif q == 5:
            out[i + (0,)] = v
        elif q == 6:
            out[i + (n - 1,)] = v
        elif q == 7 and out.dtype != object:
            out[i] = np.sort(out[i])
        elif q == 8 and out.dtype != object:
            out[i] = np.sort(out[i])[::-1]
        elif q == 9:
            out[i] = out[i + (0,)]
        elif q < 13:
            k = 0
            while k < n:
                m = int(r.choice([1, 2, 3, 5, max(1, n // 4), max(1, n // 2), 65, 130]))
                if r.random() < .5:
                    out[i][k:k + m] = p[int(r.integers(0, len(p)))] if q < 12 else v
                k += m


RELATED = ["next", "next", "prev", "succ", "succ", "succ", "succ", "first", "last", "mid", "neg", "rev", "roll", "zero", "nan", "dup", "double"]


def related(a, tr, seed):
    """Other values that have something in common with those of a."""
    if a.size == 0:
        return a
    for i in range(0, len(tr) - 2, 2):
        a = related(a, tr[i:i + 2], seed)
    out = np.array(a)
    x = out.reshape(-1)
    kind, by = tr[-2:]
    v = pool(a.dtype, {})
    v = v[(seed * 31 + by) % len(v)]
    num = a.dtype.char != "?"
    with np.errstate(all="ignore"):
        if kind == "next" and num:
            x[...] = x + np.asarray(by, a.dtype) if a.dtype != object else x + by
        elif kind == "prev" and num:
            x[...] = x - np.asarray(by, a.dtype) if a.dtype != object else x - by
        elif kind == "succ" and num:     # goes on where a ended
            d = x[-1] - x[0] + (np.ones((), a.dtype)[()] if a.dtype != object else 1)
            x[...] = x + d
        elif kind == "first":
            x[0] = v
        elif kind == "last":
            x[-1] = v
        elif kind == "mid":
            x[x.size // 2] = v
        elif kind == "neg" and num and a.dtype.kind not in "u":
            x[...] = -x
        elif kind == "rev":
            x[...] = x[::-1].copy()
        elif kind == "roll":
            x[...] = np.roll(x, 1)
        elif kind == "zero":
            x[...] = 0
        elif kind == "nan" and a.dtype.kind in "fc":
            x[-1] = np.nan
        elif kind == "dup":
            x[...] = x[0]
        elif kind == "double" and num:
            x[...] = x + x
    return out


def native_eq(a, b):
    if a.dtype == object:
        return a.shape == b.shape and all(
            x is y or x == y or (x != x and y != y) for x, y in zip(a.ravel(), b.ravel()))
    return D.nan_eq(a, b)


def build_call(f, plan, ins, fill):
    """(args, kwargs, arrays to keep, input copies) of an API call with exactly placed operands."""
    outer = tuple(plan["outer"])
    tin, tout = f.loop_types(plan["loop"])
    args, keep, before = [], [], []
    for k in range(f.nin):
        v, b = exact(ins[k], plan["lay"][k], fill)
        args.append(v)
        keep.append(b)
        before.append(b.copy())
    kw = {"signature": f.types[plan["loop"]]}
    if plan["out"]:
        outs = []
        for k in range(f.nout):
            shp = outer + D.core_shape(f, f.nin + k, plan["core"])
            dt = np.dtype(tout[k])
            if f.inout:
                init = D.out_init(f, plan, k, shp, dt)
            elif dt == object:
                init = np.empty(shp, object)
            else:
                init = np.empty(D.prod(shp) * dt.itemsize, np.uint8)
                init[:] = fill
                init = init.view(dt).reshape(shp)
            v, b = exact(init, plan["lay"][f.nin + k], fill)
            keep.append(b)
            outs.append(v)
        kw["out"] = tuple(outs)
    if plan.get("axes") and f.gufunc:
        axes = []
        for k in range(f.nin + f.nout):
            nc = len(f.core[k])
            nd = len(outer) + nc
            pos = []
            for want in plan["axes"][k][:nc]:
                p = want % nd
                while p in pos:
                    p = (p + 1) % nd
                pos.append(p)
            axes.append(tuple(pos))

        def mv(v, k):
            nc = len(f.core[k])
            return np.moveaxis(v, tuple(range(v.ndim - nc, v.ndim)), axes[k]) if nc else v
        args = [mv(v, k) for k, v in enumerate(args)]
        if plan["out"]:
            kw["out"] = tuple(mv(v, f.nin + k) for k, v in enumerate(kw["out"]))
        kw["axes"] = axes
    if plan.get("order"):
        kw["order"] = plan["order"]
    return args, kw, keep, before


def module_ranges():
    """(code ranges of ufunclab's extension modules, ranges of the simulator's runtime)"""
    ul, rt = {}, {}
    with open("/proc/self/maps") as fh:
        for line in fh:
            p = line.split()
            if len(p) < 6 or "x" not in p[1]:
                continue
            lo, hi = (int(x, 16) for x in p[0].split("-"))
            n = p[5]
            if "/ufunclab/_" in n or "/ufunclab/" in n and n.endswith(".so"):
                ul.setdefault(n, []).append((lo, hi))
            elif n.endswith(("/simrt.so", "/_simext.so")):
                rt.setdefault(n, []).append((lo, hi))
    return sum(ul.values(), []), sum(rt.values(), [])
