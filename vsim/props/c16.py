"""C16: every call ends after work bounded by the size of its operands."""

import gc
import hashlib
import signal
import sys

import numpy as np

from .. import calls
from .. import deliver as D
from .. import mem
from .. import reg

try:
    import _simext as X
except ImportError:
    X = None

ID = "C16"
LEVEL = "exploration"
VARIANT = "cov"
NONDET = "note"      # the counts of blocks and lines, which depend on what the first calls prepare
ENV = {"SIMRT_HEAP": "1"}
RUNS = {"quick": 110000, "thorough": 2500000}
RULE = ("one run = one call executed with ordinary values and then with hostile ones (special values, "
        "arbitrary bit patterns, magnitudes over the whole range, one value everywhere), in part under other "
        "rounding modes, stale flags and failing allocations, with every basic block of the compiled code and "
        "every line of the wrappers counted against a budget that depends on shapes only; non-trivial when a "
        "hostile value was used; distinct by function, loop, shape, kind of values and steps")
MEASURE = "hash of (function, loop, shape, kind of values, environment, basic blocks executed)"
REAL = "ufunclab (compiled with basic-block callbacks), its Python wrappers, NumPy, libm"
STUB = "operand values, the floating-point environment, allocators"
ASSUMPTIONS = ["NumPy's and libm's own work is bounded; it is watched by a CPU time limit only"]

# Blocks per element processed and per call.  The most that was seen is 56 per element (expint1).
PER_ELEMENT = 250
PER_CALL = 4000
LINES = 400
MODES = ["wild", "wild", "bits", "bits", "mag", "one", "one", "onebits", "small"]
ROUND = [0, 0x400, 0x800, 0xC00]
SQUARE = ("mad", "rmad", "gini")


def gen(rng, tier):
    fs = reg.cached()
    q = rng.random()
    if q < .84:
        c = None
        while c is None:
            f = fs[rng.choice(list(fs))]
            c = calls.gen_plan_call(rng, f, wild=0, big=.1)
        p = c["plan"]
        if not f.contig and f.dims and rng.random() < .06:
            ds = [d for d in f.dims if not d.isdigit()]
            if ds and "O" not in f.types[p["loop"]]:
                d = rng.choice(ds)
                if f.base in SQUARE:
                    p["core"][d] = rng.choice([130, 255, 256, 257, 300])
                else:
                    p["core"][d] = rng.choice([127, 128, 129, 255, 256, 257, 300, 1000, 3000, 32767, 32768, 65535,
                                               65536, 65537, 70000])
                    for e in ds:
                        if e != d and p["core"][d] > 300:
                            p["core"][e] = min(p["core"][e], 4)
                p["outer"] = [rng.choice([1, 1, 2])] if p["outer"] else []
                p["bc"] = [[1] * len(p["outer"]) for _ in p["bc"]]
                for l in p["lay"]:
                    l.clear()
                p.pop("axes", None)
        elif not f.gufunc and rng.random() < .04 and not f.inout:
            p["outer"] = [rng.choice([127, 128, 255, 256, 257, 32768, 65535, 65536, 65537])]
            p["bc"] = [[1] for _ in p["bc"]]
            for l in p["lay"]:
                l.clear()
    elif q < .92:
        c = calls.gen_wrap_call(rng, wild=0)
        c["c"]["defm"] = 0
    else:
        c = calls.gen_gd_call(rng)
        c["make"] = 0
    env = {}
    if rng.random() < .15:
        env["r"] = rng.choice(ROUND)
        env["mx"] = rng.choice([0, 0x40, 0x8000, 0x8040])
    if rng.random() < .15:
        env["fp"] = rng.choice([1, 4, 8, 16, 61])
    if rng.random() < .06:
        env["fault"] = [rng.choice(["heap", "py", "np"]), rng.choice([1, 1, 2, 4])]
    return {"c": c, "mode": rng.choice(MODES), "frac": rng.choice([.05, .3, 1.0]), "vseed": rng.randrange(1 << 40),
            "env": env}


# ------------------------------------------------------------------- values

def fbits(r, dt, n):
    """Arbitrary values of a floating-point type."""
    if dt.char == "d":
        return r.integers(0, 1 << 64, n, np.uint64).view(np.float64)
    if dt.char == "f":
        return r.integers(0, 1 << 32, n, np.uint64).astype(np.uint32).view(np.float32)
    if dt.char == "e":
        return r.integers(0, 1 << 16, n, np.uint64).astype(np.uint16).view(np.float16)
    m = r.integers(0, 1 << 63, n, np.uint64).astype(np.longdouble) / np.longdouble(2) ** 63 + 1
    e = r.integers(-16440, 16384, n)
    return np.where(r.random(n) < .5, 1, -1) * np.ldexp(m, e)


def values(dt, n, mode, r, core):
    if dt.kind == "c":
        h = np.dtype({"F": "f", "D": "d", "G": "g"}[dt.char])
        z = np.empty(n, dt)
        z.real = values(h, n, mode, r, core)
        z.imag = values(h, n, mode, r, core)
        return z
    p = mem.pool(dt, core)
    if mode == "wild" or dt.kind in "bOmM":
        w = np.empty(n, p.dtype)
        w[...] = p[r.integers(0, len(p), n)]
        return w
    if dt.kind == "f":
        if mode == "bits":
            return fbits(r, dt, n)
        if mode == "small":
            return (r.integers(-3, 4, n) * dt.type(r.choice([1, 1e-3, 1e6])) + r.normal(0, 1e-9, n)).astype(dt)
        fi = np.finfo(dt)
        e = r.uniform(np.log2(float(fi.tiny)) - 50 if dt.char != "g" else -16400,
                      float(fi.maxexp), n)
        return (np.where(r.random(n) < .5, 1, -1) * np.exp2(e.astype(np.longdouble))).astype(dt)
    ii = np.iinfo(dt)
    b = r.integers(0, 1 << 64, n, np.uint64)
    if mode == "mag":
        b >>= r.integers(0, 64, n).astype(np.uint64)
        s = b.astype(dt)
        return np.where(r.random(n) < .5, s, -s).astype(dt) if dt.kind == "i" else s
    if mode == "small":
        return r.integers(max(ii.min, -4), 5, n).astype(dt)
    return b.astype(dt)


def hostile(a, case, k, core):
    if a.size == 0:
        return a
    r = np.random.Generator(np.random.PCG64(case["vseed"] + 17 * k))
    mode = case["mode"]
    n = a.size
    with np.errstate(all="ignore"):
        if mode in ("one", "onebits"):
            v = values(a.dtype, 1, "wild" if mode == "one" else "bits", r, core)
            w = np.empty(n, a.dtype)
            w[...] = v[0]
        else:
            w = np.empty(n, a.dtype)
            w[...] = values(a.dtype, n, mode, r, core)
        m = r.random(n) < case["frac"]
        out = np.array(a)
        np.copyto(out, w.reshape(a.shape), where=m.reshape(a.shape))
    return out


# ------------------------------------------------------------------- calls

def shapes(c, ctx):
    """(elements processed, core)"""
    if c["k"] == "plan":
        p = c["plan"]
        f = ctx["f"][p["f"]]
        n = sum(max(1, D.prod(D.core_shape(f, k, p["core"]))) for k in range(f.nin + f.nout))
        # slices are combined with each other: digits, sections, delays, pairs
        n += D.prod(p["core"].values())
        if f.base in SQUARE:
            n += max(p["core"].values()) ** 2
        return max(1, D.prod(p["outer"])) * n
    if c["k"] == "gd":
        return max(1, c["N"]) * (2 * c["n"] + 1)
    w = c["c"]
    return (D.prod(w["shape"]) + 1) * (w["n"] + 3)


def make(c, ctx, case):
    """The call with hostile values (case given) or ordinary ones."""
    k = c["k"]
    if k == "plan":
        p = c["plan"]
        f = ctx["f"][p["f"]]
        with np.errstate(all="ignore"):
            ins = D.logical_inputs(f, p)
        if case:
            ins = [hostile(a, case, i, p["core"]) if p["wm"][i] or case["vseed"] & 1 else a for i, a in enumerate(ins)]
        args, kw, keep, before = mem.build_call(f, p, ins, 0xA5)
        bs = p["buf"]

        def go():
            old = np.setbufsize(bs)
            try:
                return f.uf(*args, **kw)
            finally:
                np.setbufsize(old)
        return go
    if k == "wrap":
        if not case:
            return calls.prepare(c, ctx)[0]
        import ufunclab
        w = c["c"]
        go = calls.prepare({"k": "wrap", "c": dict(w, wild=0 if case["mode"] == "small" else case["frac"])}, ctx)[0]
        return go
    t = [t for t in ctx["gdtypes"][c["prod"], c["sum"]] if not set(t) & set("mMO")]
    t = ([x for x in t if x[0] == c["tc"]] or t)[0]
    r = np.random.Generator(np.random.PCG64(c["dseed"]))
    ins = [np.asarray(r.integers(0, 2 if t[i] == "?" else 7, (c["N"], c["n"])), t[i]) for i in range(2)]
    if case:
        ins = [hostile(a, case, i, {}) for i, a in enumerate(ins)]
    g = ctx["gd"][c["prod"], c["sum"]]
    return lambda: g(*ins, signature=t)


class TooMany(Exception):
    pass


def measure(go, budget, lines, fp=0):
    """(basic blocks, lines, outcome)"""
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] > lines:
                raise TooMany(f"more than {lines} lines in {frame.f_code.co_name}")
        return local

    def tracer(frame, event, arg):
        return local if "/ufunclab/" in frame.f_code.co_filename else None

    signal.setitimer(signal.ITIMER_VIRTUAL, 20)
    try:
        with np.errstate(all="ignore"):
            sys.settrace(tracer)
            X.fp_raise(fp)
            X.count_start(budget)
            try:
                go()
                o = "ok"
            except TooMany:
                raise
            except Exception as e:
                o = type(e).__name__
            finally:
                b = X.count_stop()
                sys.settrace(None)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return b, n[0], o


def setup():
    ctx = calls.setup()
    ul, rt = mem.module_ranges()
    X.heap_ranges(ul, 0)
    X.heap_ranges(rt, 1)
    X.np_install()
    signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
    gc.freeze()
    return ctx


def target(case):
    return calls.label(case["c"])


def run(case, ctx):
    c = case["c"]
    name = calls.label(c)
    st = {"op:" + name: 1, "mode_" + case["mode"]: 1}
    gc.disable()
    X.np_config(0, 0x5A, 1, 0)
    n = shapes(c, ctx)
    top = PER_CALL + PER_ELEMENT * n
    bad = None
    s0 = l0 = s1 = l1 = 0
    o1 = ""
    try:
        s0, l0, o0 = measure(make(c, ctx, None), top, LINES + 10 * n)
        env = case["env"]
        go = make(c, ctx, case)
        fault = env.get("fault")
        if fault:
            if fault[0] == "py":
                X.py_arm(fault[1], 1)
                X.heap_arm(0, 4, 0)
            elif fault[0] == "np":
                X.np_arm(fault[1])
            else:
                X.heap_arm(fault[1], 4, 0)
        try:
            if "r" in env:
                st["fault:rounding_mode"] = 1
                X.fp_set(env["r"], env["mx"], 0)
            if env.get("fp"):
                st["fault:stale_flags"] = 1
            s1, l1, o1 = measure(go, top, LINES + 10 * n, env.get("fp", 0))
        finally:
            X.fp_set(0, 0, 0x8040)
            if fault:
                k = X.py_disarm()[1] if fault[0] == "py" else X.np_disarm()[1] if fault[0] == "np" else 0
                if fault[0] != "np":
                    h = X.heap_disarm()[1]
                    k += h if fault[0] == "heap" else 0
                st["fault:alloc_" + fault[0]] = k
    except TooMany as e:
        bad = ("lines", str(e))
    gc.enable()
    st["steps"] = s0 + s1
    st["lines"] = l0 + l1
    v = None
    if bad:
        v = {"kind": bad[0], "target": name, "detail": f"{name}: {bad[1]}"}
    p = c.get("plan", {})
    s = repr((name, p.get("loop"), p.get("core"), p.get("outer"), case["mode"], case["env"], s1))
    return (v, hashlib.sha256(repr((s0, l0, s1, l1, o1, bad)).encode()).hexdigest()[:16], True,
            hashlib.sha256(s.encode()).hexdigest()[:16], st)


def shrinks(case):
    if case["env"]:
        yield dict(case, env={})
    if case["frac"] != 1.0:
        yield dict(case, frac=1.0)
    for c in calls.shrinks(case["c"]):
        yield dict(case, c=c)
