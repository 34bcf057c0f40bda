"""C15: floating-point errors are reported from the call's own arguments only."""

import gc
import hashlib
import itertools
import warnings

import numpy as np

from .. import calls
from .. import deliver as D
from .. import mem
from .. import reg

try:
    import _simext as X
except ImportError:
    X = None

ID = "C15"
LEVEL = "exploration"
VARIANT = "plain"
ENV = {"SIMRT_HEAP": "1"}
RUNS = {"quick": 90000, "thorough": 1500000}
RULE = ("one run = one call with hostile values, executed with clear flags, with stale flags, after other "
        "calls that failed, delivered in other layouts, buffer sizes and chunks, under each error state, "
        "under other rounding modes and with failing allocations, and slice by slice; non-trivial when the "
        "call or one of the histories reports an error; distinct by function, loop, shape, reports and worlds")
MEASURE = "hash of (call without data, reports, worlds)"
REAL = "ufunclab as compiled for release, its Python wrappers, NumPy, libm"
STUB = "the floating-point environment before the call, the allocators, the delivery of slices"
ASSUMPTIONS = ["NumPy reports the flags that are set when the loops end",
               "x86-64, the compiler that builds the package"]
KINDS = {"divide by zero": "divide", "overflow": "overflow", "underflow": "underflow", "invalid value": "invalid"}
FE = {1: "invalid", 4: "divide", 8: "overflow"}
FLAGS = [1, 4, 8, 16, 32, 13, 61]
ROUND = [0, 0x400, 0x800, 0xC00]
DOM = ["heap", "py", "np"]


def floaty(f):
    return [i for i, t in enumerate(f.types) if "O" not in t]


def gen(rng, tier):
    fs = reg.cached()
    q = rng.random()
    if q < .78:
        while True:
            f = fs[rng.choice(list(fs))]
            c = calls.gen_plan_call(rng, f, obj=False, big=.06)
            if c:
                break
        t = f.types[c["plan"]["loop"]]
        if not set(t) & set("efdgFDG") and rng.random() < .7:
            for i in range(6):
                d = calls.gen_plan_call(rng, f, obj=False, big=.06)
                if set(f.types[d["plan"]["loop"]]) & set("efdgFDG"):
                    c = d
                    break
        p = c["plan"]
        p["wild"] = rng.choice([0, .05, .1, .3, .3, 1.0])
        p["special"] = rng.choice([0, 0, .05, .2])
        p["wm"] = [int(rng.random() < .8) for _ in p["wm"]]
    elif q < .88:
        c = calls.gen_gd_call(rng)
        c["tc"] = rng.choice("fdgfdl")
        c["wild"] = rng.choice([0, .1, .4])
        if "bitwise_and" == c["prod"]:
            c["tc"] = "l"
    else:
        c = calls.gen_wrap_call(rng, wild=rng.choice([0, .2, .5]))
    worlds = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        w = {"fp": rng.choice([0, 0] + FLAGS)}
        k = rng.choice(["same", "hist", "alt", "alt", "alt", "raw", "raw", "err", "env", "fault"])
        w["w"] = k
        if k == "hist":
            w["c"] = [calls.gen_call(rng, [60, 20, 10, 9, 0, 1], wild=rng.choice([.4, 1.0]), obj=False)
                      for _ in range(rng.choice([1, 1, 2]))]
            w["raise"] = int(rng.random() < .4)
        elif k == "alt" and c["k"] == "plan":
            p = c["plan"]
            f = fs[p["f"]]
            nd = len(p["outer"])
            w["p"] = {"lay": [{} if f.contig else D.rand_layout(rng, nd + len(f.core[j])) for j in range(f.nin + f.nout)],
                      "buf": rng.choice([16, 32, 64, 8192]), "order": rng.choice(["", "", "C", "F", "K"]),
                      "out": int(bool(p["out"]) if f.gufunc or f.inout else rng.random() < .5)}
            for l in w["p"]["lay"]:
                l.pop("unal", None)
        elif k == "raw":
            w["cuts"] = [rng.randrange(1 << 20) for _ in range(rng.choice([0, 1, 2, 5, 20]))]
            w["rev"] = int(rng.random() < .3)
        elif k == "err":
            w["mode"] = rng.choice(["warn", "raise", "ignore"])
        elif k == "env":
            w["r"] = rng.choice(ROUND)
            w["mx"] = rng.choice([0, 0, 0x40, 0x8000, 0x8040])
        elif k == "fault":
            w["dom"] = rng.choice(DOM)
            w["kr"] = rng.choice([1, 1, 2, 3, 7])
        worlds.append(w)
    return {"c": c, "worlds": worlds, "slices": int(rng.random() < .6)}


# ------------------------------------------------------------------- execution

class Rep:
    def __init__(self):
        self.k = set()
        self.n = 0

    def __call__(self, kind, flag):
        self.n += 1
        self.k.add(KINDS.get(kind, kind))

    def get(self):
        return sorted(self.k - {"underflow"})


def report(go, fp, trace=None):
    """(errors that the call reports, exception, control state before and after)"""
    rep = Rep()
    with np.errstate(all="call", call=rep):
        a = X.fp_get()
        X.fp_raise(fp)
        try:
            r = go()
            e = None
        except Exception as x:
            r = None
            e = f"{type(x).__name__}: {x}"
            x = None
        b = X.fp_get()
    X.fp_raise(0)
    return rep.get(), e, (a, b), r


def plan_inputs(c, ctx):
    p = c["plan"]
    f = ctx["f"][p["f"]]
    with np.errstate(all="ignore"):
        ins = D.logical_inputs(f, p)
        return f, [mem.wild(a, p["wild"] * p["wm"][i], p["dseed"] + 31 * i, p["core"]) for i, a in enumerate(ins)]


def gd_inputs(c, ctx):
    cand = [t for t in ctx["gdtypes"][c["prod"], c["sum"]] if not set(t) & set("mMO")]
    t = ([t for t in cand if t[0] == c["tc"]] or cand)[0]
    r = np.random.Generator(np.random.PCG64(c["dseed"]))
    ins = [mem.wild(np.asarray(r.integers(0, 2 if t[i] == "?" else 7, (c["N"], c["n"])), t[i]), c["wild"],
                    c["dseed"] + i, {}) for i in range(2)]
    return ctx["gd"][c["prod"], c["sum"]], t, ins


def make(c, ctx, alt=None):
    """A callable with operands of its own."""
    if c["k"] == "plan":
        f, ins = plan_inputs(c, ctx)
        p = dict(c["plan"], **(alt or {}))
        if not f.gufunc and not f.inout and not p["out"]:
            p["out"] = 0
        args, kw, keep, before = mem.build_call(f, p, ins, 0xA5)
        bs = p["buf"]

        def go():
            old = np.setbufsize(bs)
            try:
                return f.uf(*args, **kw)
            finally:
                np.setbufsize(old)
        return go
    if c["k"] == "gd":
        g, t, ins = gd_inputs(c, ctx)
        return lambda: g(*ins, signature=t)
    return calls.prepare(c, ctx)[0]


def raw(c, ctx, cuts, rev, fp):
    """Delivers the slices in chunks straight to the loop; the flags left at the end of each chunk."""
    f, ins = plan_inputs(c, ctx)
    p = c["plan"]
    outer = tuple(p["outer"])
    N = D.prod(outer)
    ops = []
    for k in range(f.nin):
        cs = D.core_shape(f, k, p["core"])
        ops.append(np.ascontiguousarray(np.broadcast_to(ins[k], outer + cs)).reshape((N,) + cs))
    _, tout = f.loop_types(p["loop"])
    for k in range(f.nout):
        cs = D.core_shape(f, f.nin + k, p["core"])
        ops.append(np.ascontiguousarray(D.out_init(f, dict(p, poison=0), k, outer + cs, np.dtype(tout[k])))
                   .reshape((N,) + cs))
    if not N:
        return []
    b = sorted({0, N} | {x % N for x in cuts})
    chunks = list(zip(b[:-1], b[1:]))
    if rev:
        chunks.reverse()
    dims = tuple(int(d) if d.isdigit() else p["core"][d] for d in f.dims)
    steps = tuple(a.strides[0] for a in ops)
    cst = tuple(s for a in ops for s in a.strides[1:])
    ptr = [a.ctypes.data for a in ops]
    got = 0
    for lo, hi in chunks:
        got |= X.call_loop(f.uf, p["loop"], tuple(q + lo * s for q, s in zip(ptr, steps)), (hi - lo,) + dims,
                           steps + cst, 0)
    X.fp_raise(0)
    return sorted(v for k, v in FE.items() if got & k)


def slicewise(c, ctx):
    """The errors reported when each slice is processed by a call of its own, or None."""
    k = set()
    if c["k"] == "gd":
        g, t, ins = gd_inputs(c, ctx)
        for i in range(c["N"]):
            r, e, _, _ = report(lambda: g(*(a[i].copy() for a in ins), signature=t), 0)
            if e:
                return None, e
            k |= set(r)
        return sorted(k), None
    f, ins = plan_inputs(c, ctx)
    p = c["plan"]
    outer = tuple(p["outer"])
    if f.inout or D.prod(outer) > 40:
        return None, None
    b = [np.broadcast_to(a, outer + D.core_shape(f, i, p["core"])) for i, a in enumerate(ins)]
    _, tout = f.loop_types(p["loop"])
    for ix in itertools.product(*map(range, outer)):
        kw = {"signature": f.types[p["loop"]]}
        if p["out"]:
            kw["out"] = tuple(np.zeros(D.core_shape(f, f.nin + q, p["core"]), tout[q]) for q in range(f.nout))
        args = [a[ix].copy() for a in b]
        r, e, _, _ = report(lambda: f.uf(*args, **kw), 0)
        if e:
            return None, e
        k |= set(r)
    return sorted(k), None


def disarm(dom):
    if dom == "np":
        return X.np_disarm()[1]
    n = X.py_disarm()[1] if dom == "py" else 0
    h = X.heap_disarm()[1]
    return n if dom == "py" else h


def world(c, w, ctx, ref, exc, st):
    """What is wrong in this world, or None."""
    k, fp = w["w"], w["fp"]
    alt = None
    if fp:
        st["fault:stale_flags"] = st.get("fault:stale_flags", 0) + 1
    if k == "alt":
        alt = w.get("p")
    if k == "raw":
        if c["k"] != "plan" or exc:
            return None
        st["fault:chunking"] = st.get("fault:chunking", 0) + 1
        got = raw(c, ctx, w["cuts"], w["rev"], fp)
        # NumPy's own setup reports nothing, so the flags the loops leave are the report
        if got != ref:
            return "chunks", f"the loop in {len(w['cuts']) + 1} chunks leaves the flags {got}, the call reports {ref}"
        return None
    if k == "hist":
        for h in w["c"]:
            with np.errstate(all="raise" if w["raise"] else "ignore"):
                try:
                    calls.prepare(h, ctx)[0]()
                except Exception:
                    st["fault:failed_call_before"] = st.get("fault:failed_call_before", 0) + 1
            X.fp_raise(fp)
    go = make(c, ctx, alt)
    if k == "err":
        return errstate(go, w["mode"], fp, ref, exc)
    if k == "fault":
        dom = w["dom"]
        if dom == "py":
            X.py_arm(w["kr"], 1)
            X.heap_arm(0, 4, 0)
        elif dom == "np":
            X.np_arm(w["kr"])
        else:
            X.heap_arm(w["kr"], 4, 0)
        fired = 0

        def g2():
            nonlocal fired
            try:
                return go()
            finally:
                fired = disarm(dom)
        r, e, (a, b), _ = report(g2, fp)
        st["fault:alloc_" + dom] = st.get("fault:alloc_" + dom, 0) + fired
        if a != b:
            return "control", f"the floating-point control state went from {a} to {b} (allocation failed)"
        if e is None and not fired and r != ref:
            return "report", f"reports {r} instead of {ref}"
        r, e, _, _ = report(make(c, ctx), 0)
        if (r, e) != (ref, exc):
            return "after-fault", f"after a failed allocation: reports {r} {e or ''} instead of {ref} {exc or ''}"
        return None
    if k == "env":
        st["fault:rounding_mode"] = st.get("fault:rounding_mode", 0) + 1
        X.fp_set(w["r"], w["mx"], 0)
        try:
            r, e, (a, b), _ = report(go, fp)
        finally:
            X.fp_set(0, 0, 0x8040)
        if a != b:
            return "control", f"the floating-point control state went from {a} to {b}"
        if e != exc:
            return "report", f"raised {e} instead of {exc}"
        return None
    r, e, (a, b), _ = report(go, fp)
    if a != b:
        return "control", f"the floating-point control state went from {a} to {b}"
    if (r, e) != (ref, exc):
        return "report", (f"reports {r} {e or ''} instead of {ref} {exc or ''} (stale flags {fp:#x}, "
                          f"{'after ' + ', '.join(calls.label(h) for h in w['c']) if k == 'hist' else k})")
    return None


def errstate(go, mode, fp, ref, exc):
    with warnings.catch_warnings(record=True) as ws, np.errstate(all=mode, under="ignore"):
        warnings.simplefilter("always")
        X.fp_raise(fp)
        try:
            go()
            e = None
        except Exception as x:
            e = x
    X.fp_raise(0)
    msgs = [str(w.message) for w in ws if issubclass(w.category, RuntimeWarning)]
    kinds = sorted({v for k, v in KINDS.items() for m in msgs if m.startswith(k)})
    if exc:
        if mode == "raise" and isinstance(e, FloatingPointError):
            return None
        return None if e is not None else ("report", f"did not raise {exc} under errstate {mode}")
    if mode == "raise":
        if ref and not isinstance(e, FloatingPointError):
            return "errstate", f"did not raise FloatingPointError although it reports {ref}"
        if not ref and e is not None:
            return "errstate", f"raised {type(e).__name__}: {e} although it reports nothing"
    elif e is not None:
        return "errstate", f"raised {type(e).__name__}: {e} under errstate {mode}"
    elif mode == "warn" and kinds != ref:
        return "errstate", f"warned {msgs}, expected warnings of {ref}"
    elif mode == "ignore" and msgs:
        return "errstate", f"warned {msgs} although floating-point errors are ignored"
    return None


def setup():
    ctx = calls.setup()
    ul, rt = mem.module_ranges()
    X.heap_ranges(ul, 0)
    X.heap_ranges(rt, 1)
    X.np_install()
    gc.freeze()
    return ctx


def target(case):
    return calls.label(case["c"])


def run(case, ctx):
    c = case["c"]
    name = calls.label(c)
    st = {"op:" + name: 1}
    gc.disable()
    X.np_config(0, -1, 1, 0)
    X.fp_set(0, 0, 0x8040)
    bad = None
    ref, exc, (a, b), _ = report(make(c, ctx), 0)
    if a != b:
        bad = ("control", f"the floating-point control state went from {a} to {b}")
    for r in ref:
        st["reports_" + r] = 1
    seen = []
    n = 1
    for w in case["worlds"]:
        if bad:
            break
        n += 1
        bad = world(c, w, ctx, ref, exc, st)
        seen.append(w["w"])
    if not bad and case["slices"] and not exc and c["k"] in ("plan", "gd"):
        k, e = slicewise(c, ctx)
        if e:
            bad = ("slices", f"the call succeeds, but the same slice alone raises {e}")
        elif k is not None and k != ref:
            bad = ("slices", f"the call reports {ref}, its slices alone report {k}")
        st["slicewise"] = 1
    gc.enable()
    st["steps"] = n
    v = None
    if bad:
        d = ""
        if c["k"] == "plan":
            f = ctx["f"][c["plan"]["f"]]
            d = f" {f.types[c['plan']['loop']]} core {c['plan']['core']} outer {c['plan']['outer']}"
        elif c["k"] == "gd":
            d = f"({c['prod']}, {c['sum']}) n={c['n']} N={c['N']} {c['tc']}"
        v = {"kind": bad[0], "target": name, "detail": f"{name}{d}: {bad[1]}"}
    s = repr((name, c.get("plan", {}).get("loop"), ref, exc, [(w["w"], w["fp"]) for w in case["worlds"]], case["slices"],
              c.get("plan", {}).get("outer"), c.get("plan", {}).get("core")))
    sig = hashlib.sha256(s.encode()).hexdigest()[:16]
    return v, hashlib.sha256(repr((ref, exc, bad)).encode()).hexdigest()[:16], bool(ref) or any(
        w["fp"] for w in case["worlds"]), sig, st


def shrinks(case):
    ws = case["worlds"]
    for i in range(len(ws)):
        if len(ws) > 1 or case["slices"]:
            yield dict(case, worlds=ws[:i] + ws[i + 1:])
    if case["slices"] and ws:
        yield dict(case, slices=0)
    for i, w in enumerate(ws):
        if w["fp"]:
            yield dict(case, worlds=ws[:i] + [dict(w, fp=0)] + ws[i + 1:])
        if w["w"] == "hist" and len(w["c"]) > 1:
            for j in range(len(w["c"])):
                yield dict(case, worlds=ws[:i] + [dict(w, c=[w["c"][j]])] + ws[i + 1:])
        if w.get("cuts"):
            yield dict(case, worlds=ws[:i] + [dict(w, cuts=w["cuts"][1:])] + ws[i + 1:])
    for c in calls.shrinks(case["c"]):
        if all("p" not in w for w in ws):
            yield dict(case, c=c)
