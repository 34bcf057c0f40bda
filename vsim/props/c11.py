"""C11: a gendot gufunc is exactly the composition of its two ufuncs."""

import gc
import hashlib

import numpy as np

from .. import deliver as D
from .. import mem

try:
    import _simext as X
except ImportError:
    X = None

ID = "C11"
LEVEL = "exploration"
VARIANT = "plain"
ENV = {"SIMRT_HEAP": "1"}
RUNS = {"quick": 16000, "thorough": 600000}
RULE = ("one run = a history of gendot gufuncs: created from seeded pairs of ufuncs of NumPy and ufunclab, "
        "called on seeded types, shapes, layouts and buffer sizes, dropped while others live on, with "
        "allocations of the compiled code failing at seeded points and the call repeated; results are "
        "compared with folding sumfunc over prodfunc(x, y) slice by slice, freed memory is overwritten and "
        "quarantined and temporary memory ends at a guard page; non-trivial when a gufunc was called; "
        "distinct by the whole history")
MEASURE = "hash of (pairs, types, shapes, layouts, order of creation, calls, drops and faults)"
REAL = "gendot (wrapper and compiled module) as compiled for release, NumPy, ufunclab's ufuncs"
STUB = "malloc (simulated heap); the model folds with NumPy's accumulate and single-slice gufunc calls"
ASSUMPTIONS = ["NumPy's own loops and accumulate are right",
               "floating results may differ by rounding when NumPy picks another kernel for another layout"]
TOL = {"e": 4e-3, "f": 2e-6, "F": 2e-6, "d": 1e-13, "D": 1e-13, "g": 1e-15, "G": 1e-15}
CHARS = "?bBhHiIlLqQefdgFDG"


# NumPy has several kernels for these, whose results differ by rounding with the layout ...
LIBM = {"arctan2", "pow", "power", "float_power", "hypot", "logaddexp", "logaddexp2"}
# ... which these do not magnify.
SMOOTH = {"add", "maximum", "minimum", "fmax", "fmin", "multiply", "hypot", "logaddexp", "logaddexp2", "ul:rms"}


def catalogue():
    import ufunclab as ul
    fs = {}
    for n in sorted(dir(np)):
        f = getattr(np, n)
        if isinstance(f, np.ufunc) and f.__name__ not in [g.__name__ for g in fs.values()]:
            fs[n] = f
    for n in sorted(ul.__all__ if hasattr(ul, "__all__") else dir(ul)):
        f = getattr(ul, n)
        if isinstance(f, np.ufunc):
            fs["ul:" + n] = f
    prods = {n: f for n, f in fs.items() if f.signature is None and f.nin == 2 and f.nout == 1}
    sums = dict(prods)
    for n, f in fs.items():
        if f.signature and f.nin == 1 and f.nout == 1 and f.signature.replace(" ", "") == "(n)->()":
            sums[n] = f
    # ufuncs that end as soon as nothing refers to them
    prods["sim:0"] = sums["sim:0"] = X.sim_ufunc(0, 1.0)
    prods["sim:1"] = sums["sim:1"] = X.sim_ufunc(1, 1.0)
    sums["sim:2"] = X.sim_ufunc(2, 2.0)
    return prods, sums


def mortal(n, f):
    """The ufunc itself or one of the same kind that ends with its last reference."""
    return X.sim_ufunc(int(n[4:]), 2.0 if n == "sim:2" else 1.0) if n.startswith("sim:") else f


def model_types(p, s):
    """[(types of the gufunc, type of prodfunc's loop, type of sumfunc's loop)] in order"""
    out = []
    for pt in p.types:
        if not all(c in CHARS for c in pt.replace("->", "")):
            continue
        o = pt[-1]
        for st in s.types:
            i, so = st.split("->")
            if i == o * s.nin and (s.nin == 1 or so == o) and so in CHARS:
                out.append((pt[:2] + "->" + so, pt, st))
    return out


_NAMES = []


def gen(rng, tier):
    if not _NAMES:
        p, s = catalogue()
        _NAMES.extend([sorted(p), sorted(s), [[a, b] for a in sorted(p) for b in sorted(s) if model_types(p[a], s[b])]])
    pn, sn, good = _NAMES
    ev = []
    few = [rng.choice(good) for _ in range(rng.choice([1, 2, 4]))]
    for i in range(rng.choice([2, 4, 6, 10, 16])):
        q = rng.random()
        if q < .22 or i == 0:
            p, s = rng.choice(few)
            if rng.random() < .06:
                p = rng.choice(["sim:0", "sim:1"])
                s = rng.choice(["sim:1", "sim:2", "sim:2", "maximum", "ul:rms"])
            elif rng.random() < .04 and p in ("add", "multiply", "subtract", "hypot", "maximum"):
                s = "sim:2"
            if rng.random() < .05:
                p, s = rng.choice(pn), rng.choice(sn)
            ev.append({"do": "make", "p": p, "s": s, "name": rng.choice([None, None, "x", "n" * 300, "é"]),
                       "doc": rng.choice([None, None, "", "d" * 1000]), "k": rng.choice([0, 0, 0, 1, 2, 3])})
        elif q < .32:
            ev.append({"do": "drop", "i": rng.randrange(100)})
        elif q < .36:
            ev.append({"do": "gc"})
        else:
            nd = rng.choice([0, 1, 1, 2, 3])
            big = rng.random() < .04
            outer = [rng.choice([1, 2, 3, 5, 0] if rng.random() < .3 else [1, 2, 3]) for _ in range(nd)]
            if big and nd:
                outer[0] = rng.choice([300, 700, 1200])
                outer[1:] = [1] * (nd - 1)
            bx = [int(rng.random() < .2) for _ in range(nd)]
            by = [int(rng.random() < .2 and not b) for b in bx]
            ev.append({"do": "call", "i": rng.randrange(100), "t": rng.randrange(1 << 20), "nat": int(rng.random() < .3),
                       "n": rng.choice([0, 1, 2, 3, 4, 7, 8, 9, 16, 17, 33, 64, 200] if not big else [1, 2, 3]),
                       "outer": outer, "bx": bx, "by": by, "lx": D.rand_layout(rng, nd + 1),
                       "ly": D.rand_layout(rng, nd + 1), "lo": D.rand_layout(rng, nd),
                       "out": int(rng.random() < .4), "axes": int(rng.random() < .2), "ax": rng.randrange(8),
                       "buf": rng.choice([8192, 8192, 16, 32, 64]), "s": rng.randrange(1 << 40),
                       "sp": rng.choice([0, 0, .1, .5]), "k": rng.choice([0, 0, 0, 1, 1, 2]),
                       "inp": int(rng.random() < .1)})
    return {"ev": ev}


def setup():
    import ufunclab as ul
    try:
        ul.gendot(np.multiply, np.add)
    except Exception:       # the runs find out
        pass
    p, s = catalogue()
    a, rt = mem.module_ranges()
    X.heap_ranges(a, 0)
    X.heap_ranges(rt, 1)
    gc.freeze()
    return {"gendot": ul.gendot, "p": p, "s": s}


def target(case):
    for e in case["ev"]:
        if e["do"] == "make":
            return "gendot"
    return "gendot"


def rnd(r, c, shape, sp):
    dt = np.dtype(c)
    if c == "?":
        return r.random(shape) < .6
    if dt.kind in "iu":
        a = r.integers(0 if dt.kind == "u" else -9, 10, shape).astype(dt)
        if sp:
            k = r.random(shape) < sp
            ii = np.iinfo(dt)
            v = r.choice(np.array([ii.min, ii.max, 0, 1, ii.max // 2], dt), a.shape)
            a = np.where(k, v, a)
        return a.astype(dt)
    a = (r.integers(-32, 33, shape) / 4).astype(dt)
    if dt.kind == "c":
        a = (a + 1j * (r.integers(-32, 33, shape) / 4)).astype(dt)
    if sp:
        k = r.random(shape) < sp
        v = r.choice(np.array([np.nan, np.inf, -np.inf, 0., -0., 1., 60000., 1e-4]), np.shape(a))
        a = np.where(k, v, a).astype(dt)
    return a


def fold(p, s, pt, st, x, y):
    """The model: sumfunc folded over prodfunc(x, y), one contiguous slice at a time."""
    shape = np.broadcast_shapes(x.shape, y.shape)
    x = np.broadcast_to(x, shape)
    y = np.broadcast_to(y, shape)
    n = shape[-1]
    res = np.empty(shape[:-1], st[-1])
    if n == 0:
        if s.identity is None:
            raise ValueError("no identity")
        res[...] = np.array(s.identity).astype(st[-1])
        return res
    for i in np.ndindex(*shape[:-1]):
        z = p(np.ascontiguousarray(x[i]), np.ascontiguousarray(y[i]), signature=pt)
        if s.nin == 2:
            r = s.accumulate(z, dtype=z.dtype)[-1]
        else:
            r = s(z, signature=st)
        res[i] = r
    return res


def same(a, b, loose):
    if a.dtype != b.dtype:
        return False
    if a.dtype.kind in "biu":
        return bool(np.array_equal(a, b))
    c = a.dtype.char
    with np.errstate(all="ignore"):
        if a.dtype.kind == "c":
            parts = [(a.real, b.real), (a.imag, b.imag)]
        else:
            parts = [(a, b)]
        sc = np.maximum(np.abs(a), np.abs(b)).astype(np.longdouble)
        for u, v in parts:
            ok = (u == v) | (np.isnan(u) & np.isnan(v)) | \
                (np.abs(u.astype(np.longdouble) - v) <= loose * TOL[c] * sc)
            if a.dtype.kind == "c":
                ok |= ~np.isfinite(a) & ~np.isfinite(b)
            if not ok.all():
                return False
    return True


def history(case, ctx, st, first):
    """(violation or None, record)"""
    live = []
    rec = []
    bad = None
    ncall = 0
    fs = None
    m0, e0_, s0 = X.sim_status()
    for e in case["ev"]:
        do = e["do"]
        if first:
            st["steps"] = st.get("steps", 0) + 1
        if do == "gc":
            gc.collect()
        elif do == "drop":
            if live:
                del live[e["i"] % len(live)]
                rec.append("drop")
        elif do == "make":
            p, s = ctx["p"][e["p"]], ctx["s"][e["s"]]
            kw = {}
            if e["name"] is not None:
                kw["name"] = e["name"]
            if e["doc"] is not None:
                kw["doc"] = e["doc"]
            g = None
            pm, sm = mortal(e["p"], p), mortal(e["s"], s)
            for k in (e["k"], 0):
                X.heap_next(k)
                try:
                    g = ctx["gendot"](pm, sm, **kw)
                except MemoryError:
                    if first:
                        st["fault:allocation"] = st.get("fault:allocation", 0) + 1
                    if k == 0:
                        bad = ("make-MemoryError", f"gendot({e['p']}, {e['s']}) raised MemoryError, memory is available")
                        break
                    continue
                except Exception as x:
                    x.__traceback__ = None
                    bad = (f"make-{type(x).__name__}", f"gendot({e['p']}, {e['s']}): {x!r}")
                    break
                finally:
                    X.heap_next(0)
                break
            pm = sm = None
            if bad:
                break
            mt = model_types(p, s)
            have = [t for t in g.types if all(c in CHARS for c in t.replace("->", ""))]
            if sorted(set(have)) != sorted({m[0] for m in mt}):
                bad = ("types", f"gendot({e['p']}, {e['s']}) offers {have}, the pairs of loops give {[m[0] for m in mt]}")
                break
            live.append((g, p, s, mt, e))
            rec.append(("make", e["p"], e["s"]))
            g = None
        else:
            if not live:
                continue
            fs = live[e["i"] % len(live)]
            if fs[3]:
                ncall += 1
                if first:
                    k = "op:gendot(" + fs[4]["p"] + "," + fs[4]["s"] + ")"
                    st[k] = st.get(k, 0) + 1
                bad, r = call(fs, e, st if first else {})
                rec.append(r)
                if bad:
                    break
            g, _, _, _, e0 = fs
            want = e0["name"] if e0["name"] is not None else f"gendot_{fs[1].__name__}_{fs[2].__name__}"
            if g.__name__ != want or g.signature != "(n),(n)->()" or \
                    (e0["doc"] is not None and e0["doc"] not in (g.__doc__ or "")):
                bad = ("attributes", f"name {g.__name__[:40]!r}, signature {g.signature!r}")
                break
            g = fs = None
    live.clear()
    g = fs = pm = sm = None
    gc.collect(0)
    made, ended, stale = X.sim_status()
    made -= m0
    ended -= e0_
    if made and first:
        st["fault:ufunc_ended"] = ended
    if not bad and stale > s0:
        bad = ("ended-ufunc", f"{stale - s0} calls of the loop of a ufunc that had been destroyed")
    if not bad and made != ended:
        bad = ("ufunc-kept", f"of {made} ufuncs given to gendot {made - ended} are still there after the gufuncs have gone")
    return bad, rec, ncall


def call(fs, e, st):
    g, p, s, mt, e0 = fs
    what = f"gendot({e0['p']}, {e0['s']})"
    typ, pt, sty = mt[e["t"] % len(mt)]
    r = np.random.Generator(np.random.PCG64(e["s"]))
    outer, n = e["outer"], e["n"]
    shx = [1 if b else z for z, b in zip(outer, e["bx"])] + [n]
    shy = [1 if b else z for z, b in zip(outer, e["by"])] + [n]
    x, y = rnd(r, typ[0], shx, e["sp"]), rnd(r, typ[1], shy, e["sp"])
    if e0["p"] in ("maximum", "minimum", "fmax", "fmin") and pt[-1] in TOL:
        x, y = x + 0, y + 0      # which zero of 0.0 and -0.0 is larger depends on NumPy's kernel
    tag = (typ, n, tuple(outer), e["k"], e["nat"])
    where = f"{what} {typ} (prodfunc {pt}, sumfunc {sty}) n={n} outer={outer}"
    kw = {}
    if e["nat"]:
        # without a signature NumPy picks the first loop for these types
        typ, pt, sty = next(m for m in mt if m[0][:2] == typ[:2])
    else:
        kw["signature"] = typ
    with np.errstate(all="ignore"):
        try:
            want = fold(p, s, pt, sty, x, y)
            exc = None
        except (ValueError, ZeroDivisionError) as ex:
            exc = type(ex)
    xv, xb = mem.exact(x, e["lx"], 0x11)
    yv, yb = mem.exact(y, e["ly"], 0x22)
    xc, yc = xb.copy(), yb.copy()
    ov = None
    if e["out"]:
        ov, ob = mem.exact(np.zeros(outer, typ[-1]), e["lo"], 0x33)
    if e["axes"]:
        nd = len(outer) + 1
        a, b = e["ax"] % nd, (e["ax"] // 3) % nd
        xv, yv = np.moveaxis(xv, -1, a), np.moveaxis(yv, -1, b)
        kw["axes"] = [(a,), (b,), ()]
    old = np.setbufsize(e["buf"])
    got = None
    err = None
    for k in (e["k"], 0):
        err = None
        X.heap_next(k)
        try:
            with np.errstate(all="ignore"):
                got = g(xv, yv, **kw, **({"out": ov} if ov is not None else {}))
        except MemoryError as ex:
            err = ex
            if k:
                st["fault:allocation"] = st.get("fault:allocation", 0) + 1
                continue
        except Exception as ex:
            err = ex
        finally:
            X.heap_next(0)
        break
    np.setbufsize(old)
    if err is not None:
        if 0 in outer and isinstance(err, ValueError):
            return None, tag
        if exc is None or not isinstance(err, exc):
            return (f"raised-{type(err).__name__}", f"{where}: {err!r}"), tag
        return None, tag
    if exc is not None:
        if 0 in outer:
            return None, tag
        return ("not-raised", f"{where}: no {exc.__name__}"), tag
    got = np.asarray(got)
    if got.dtype.newbyteorder("=") != want.dtype:
        return ("type", f"{where}: result has type {got.dtype}, expected {want.dtype}"), tag
    got = got.astype(got.dtype.newbyteorder("="))
    if got.shape != want.shape:
        return ("shape", f"{where}: shape {got.shape}, expected {want.shape}"), tag
    loose = 1
    if pt[-1] in TOL:
        lp, ls = e0["p"] in LIBM or e0["p"].startswith("ul:"), e0["s"] in LIBM
        if lp and e0["s"] not in SMOOTH or ls and e0["s"] not in SMOOTH and n > 3:
            loose = None
        elif lp or ls:
            loose = 1000 if typ[-1] != "e" else 20
    if loose is not None and not same(got, want, loose):
        i = [k for k in np.ndindex(*want.shape) if not same(got[k].reshape(1), want[k].reshape(1), loose)]
        return ("value", f"{where}: at {i[0]}: {got[i[0]]!r}, expected {want[i[0]]!r} ({len(i)} of {want.size})"), tag
    if not np.array_equal(xb, xc) or not np.array_equal(yb, yc):
        return ("input-modified", where), tag
    return None, tag


def run(case, ctx):
    st = {}
    gc.disable()
    X.heap_fill(0x6B, 0)
    X.heap_arm(0, 4, 1)
    try:
        bad, rec, ncall = history(case, ctx, st, True)
        # what is left over must not grow when the history is repeated
        if not bad:
            gc.collect(0)
            left = [X.heap_live()]
            while len(left) < 4 and left[-1] > (left[-2] if len(left) > 1 else 0):
                bad, _, _ = history(case, ctx, st, False)
                gc.collect(0)
                left.append(X.heap_live())
            if len(left) == 4 and left[3] > left[2] > left[1] > left[0] and not bad:
                bad = ("leak", f"blocks left over after 1, 2, 3 and 4 rounds: {left}")
        X.heap_scan()
    finally:
        h = X.heap_disarm()
        gc.enable()
    if h[3] and not bad:
        bad = ("heap", h[5])
    v = None
    if bad:
        v = {"kind": bad[0], "target": "gendot", "detail": f"history {rec[-8:]}: {bad[1]}"}
    sig = hashlib.sha256(repr([sorted((k, x) for k, x in e.items() if k != "s") for e in case["ev"]]).encode()).hexdigest()[:16]
    d = hashlib.sha256(repr(rec).encode()).hexdigest()[:16]
    return v, d, ncall > 0, sig, st


def shrinks(case):
    ev = case["ev"]
    n = len(ev)
    k = max(1, n // 2)
    while n > 1 and k >= 1:
        for i in range(0, n, k):
            if len(ev[:i] + ev[i + k:]):
                yield dict(case, ev=ev[:i] + ev[i + k:])
        if k == 1:
            break
        k //= 2
    for i, e in enumerate(ev):
        if e["do"] == "call":
            for k, z in (("outer", []), ("lx", {}), ("ly", {}), ("lo", {}), ("out", 0), ("axes", 0), ("k", 0), ("buf", 8192),
                         ("sp", 0), ("n", 1), ("n", 2), ("n", 3), ("i", 0)):
                if e[k] != z and not (k == "n" and e[k] < z):
                    c = dict(e, **{k: z})
                    if k == "outer":
                        c["bx"] = c["by"] = []
                    yield dict(case, ev=ev[:i] + [c] + ev[i + 1:])
        elif e["do"] == "make":
            for k, z in (("k", 0), ("name", None), ("doc", None)):
                if e[k] != z:
                    yield dict(case, ev=ev[:i] + [dict(e, **{k: z})] + ev[i + 1:])
