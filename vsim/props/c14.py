"""C14: the outcome of a call does not depend on the calls made before it."""

import gc
import hashlib
import json
import os
import random
import re
import sys
import warnings

import numpy as np

from .. import calls
from .. import mem
from .. import reg
from .c12 import forked

try:
    import _simext as X
except ImportError:
    X = None

ID = "C14"
LEVEL = "exploration"
VARIANT = "plain"
ENV = {"SIMRT_HEAP": "1"}
RUNS = {"quick": 2400, "thorough": 150000}
RULE = ("one run = a history of calls in a process that has called nothing before: several calls of a few "
        "functions with changing data, sizes and types, repetitions up to hundreds, rejected calls, failing "
        "allocations, elements that raise, floating-point errors that raise, and stale floating-point flags; "
        "every call without a fault is also made alone in a process of its own; distinct by the calls with "
        "their outcomes")
MEASURE = "hash of the sequence of (function, loop, fault, outcome)"
REAL = "ufunclab as compiled for release, its Python wrappers, NumPy, CPython"
STUB = "allocators (failing allocations), the elements that raise, the history (simulated caller)"
ASSUMPTIONS = ["forked processes that made the same calls are in the same state"]
DOM = ["heap", "py", "np"]
ERRS = ["warn", "warn", "warn", "raise", "ignore"]
FLAGS = [1, 4, 8, 16, 32, 61]


class Bomb:
    """An element whose operations all fail."""

    def __init__(self, what):
        self.what = what

    def _f(self, *a):
        raise self.what("bomb")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _f
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __abs__ = __neg__ = _f
    __hash__ = None


BOMBS = {"Value": ValueError, "Type": TypeError, "Memory": MemoryError, "Zero": ZeroDivisionError,
         "NotImpl": NotImplementedError, "Stop": StopIteration, "Over": OverflowError, "Attr": AttributeError,
         "Key": KeyError, "Float": FloatingPointError, "Rec": RecursionError}


def variation(rng, c):
    """Another call of the same function."""
    if c["k"] == "plan":
        p = c["plan"]
        q = rng.random()
        if q < .4:
            return {"k": "plan", "plan": dict(p, tr=[rng.choice(mem.RELATED), rng.choice([1, 1, 1, 2, 3, 100])], wm=[1] * len(p["wm"]))}
        if q < .6:
            return {"k": "plan", "plan": dict(p, dseed=rng.randrange(1 << 40),
                                              special=rng.choice([0, 0, .2]), wild=rng.choice([0, .1, 1.0]))}
        f = reg.cached()[p["f"]]
        if q < .72:
            # the same values in other types
            same = [i for i, t in enumerate(f.types) if ("O" in t) == ("O" in f.types[p["loop"]])]
            return {"k": "plan", "plan": dict(p, loop=rng.choice(same))}
        if q < .8 and "O" in "".join(f.types):
            return calls.gen_plan_call(rng, f, obj=True)
        return calls.gen_plan_call(rng, f)
    if c["k"] == "wrap":
        q = rng.random()
        if q < .3:
            return {"k": "wrap", "c": dict(c["c"], dseed=rng.randrange(1 << 40))}
        if q < .6:
            t = "fdg" if c["c"]["tc"] in "fdg" else "bhilq" if c["c"]["w"] == "one_hot" else "bBhHiIlLqQ"
            t = rng.choice(t)
            return {"k": "wrap", "c": dict(c["c"], tc=t, ix=rng.choice([0, 1, 2, 3]),
                                           defm=c["c"]["defm"] if t in "bBhH" else 0)}
        for _ in range(40):
            d = calls.gen_wrap_call(rng)
            if d["c"]["w"] == c["c"]["w"]:
                return d
        return {"k": "wrap", "c": dict(c["c"], dseed=rng.randrange(1 << 40))}
    if c["k"] == "gd":
        d = calls.gen_gd_call(rng)
        if rng.random() < .7:
            d["prod"], d["sum"] = c["prod"], c["sum"]
            if rng.random() < .5:
                d["tc"] = c["tc"]
        named(rng, d)
        return d
    if c["k"] == "insp":
        return dict(c, u=rng.choice(calls.INSP))
    return dict(c, dseed=rng.randrange(1 << 30))


def named(rng, d):
    if rng.random() < .6:
        d["make"] = 1
        d["nd"] = [rng.choice(["f", "g", "gendot"]), rng.choice(["", "one", "two"])]


def relative(rng, c):
    """A call of a function that shares code with that of c."""
    if c["k"] == "plan":
        fs = reg.cached()
        b = fs[c["plan"]["f"]]
        fam = [n for n in fs if n != b.name and (fs[n].base[:3] == b.base[:3] or fs[n].core == b.core)]
        if fam:
            return calls.gen_plan_call(rng, fs[rng.choice(fam)])
    return calls.gen_call(rng)


def finish(rng, c):
    """Makes a step of a call."""
    if c["k"] == "gd" and "nd" not in c:
        c = dict(c)
        named(rng, c)
    if c["k"] == "plan" and rng.random() < .35:
        p = dict(c["plan"], nosig=1)
        if rng.random() < .3:
            f = reg.cached()[p["f"]]
            p["as"] = [rng.choice(["", "", "b", "H", "l", "f", "d", "g", "O", "D"]) for _ in range(f.nin)]
        c = {"k": "plan", "plan": p}
    return {"c": c, "err": rng.choice(ERRS)}


def gen(rng, tier):
    themes = [calls.gen_call(rng, [55, 22, 12, 9, 1, 1])]
    for _ in range(rng.choice([0, 1, 2, 3])):
        themes.append(relative(rng, themes[0]) if rng.random() < .5 else calls.gen_call(rng, [55, 22, 12, 9, 1, 1]))
    pool = []
    for t in themes:
        pool.append(finish(rng, t))
        for _ in range(rng.choice([1, 2, 4])):
            pool.append(finish(rng, variation(rng, t)))
    steps = []
    heavy = 0
    solo = int(rng.random() < .12)
    for _ in range(rng.choice([3, 4, 6, 8, 10, 14] if solo else [8, 14, 20, 30])):
        if rng.random() < .3:
            t = rng.choice(themes)
            if t["k"] == "plan":
                # values that follow each other
                p = dict(t["plan"], wm=[1] * len(t["plan"]["wm"]))
                if rng.random() < .6:
                    p["outer"] = [min(x, 1) for x in p["outer"]]
                    p["dseed"] = rng.randrange(1 << 40)
                for j in range(rng.choice([2, 3, 5])):
                    steps.append(finish(rng, {"k": "plan", "plan": p}))
                    p = dict(p, tr=(p.get("tr") or []) + [rng.choice(mem.RELATED), 1])
                continue
        q = rng.random()
        if q < .03:
            steps.append({"fp": rng.choice(FLAGS)})
            continue
        if q < .08:
            s = finish(rng, {"k": "bad", "b": rng.choice(calls.BAD), "dseed": rng.randrange(1 << 30)})
        elif q < .15:
            s = finish(rng, calls.gen_call(rng))
        elif steps and "c" in steps[-1] and q < .4:
            s = finish(rng, variation(rng, steps[-1]["c"]))
        else:
            s = dict(rng.choice(pool))
        q = rng.random()
        if q < .12:
            s["fault"] = [rng.choice(DOM), rng.choice([1, 1, 2, 3, 5, 9]), int(rng.random() < .3)]
        elif q < .30 and s["c"]["k"] == "plan":
            f = reg.cached()[s["c"]["plan"]["f"]]
            if any("O" in t for t in f.types):
                if "O" not in f.types[s["c"]["plan"]["loop"]]:
                    s = finish(rng, calls.gen_plan_call(rng, f, obj=True))
                s["bomb"] = [rng.choice(sorted(BOMBS)), rng.randrange(1 << 20), rng.randrange(1 << 20)]
        elif q < .34 and heavy < 1:
            heavy += 1
            s["rep"] = rng.choice([2, 2, 3, 3, 17, 70, 130, 300])
        steps.append(s)
        if rng.random() < .2:
            s["scrib"] = 1
    return {"steps": steps, "solo": solo, "keep": int(rng.random() < .5)}


# ------------------------------------------------------------------- execution

def prepare(s, ctx):
    c = s["c"]
    p = c.get("plan") or {}
    if not (p.get("nosig") or s.get("bomb")):
        return calls.prepare(c, ctx)[0]
    f = ctx["f"][p["f"]]
    ins = calls.plan_inputs(p, ctx)
    args, kw, keep, before = mem.build_call(f, p, ins, 0xA5)
    if p.get("nosig"):
        del kw["signature"]
        for i, t in enumerate(p.get("as", [])):
            if t and args[i].dtype != object:
                with np.errstate(all="ignore"), warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    args[i] = args[i].astype(t)
    b = s.get("bomb")
    if b:
        oi = [a for a in args if a.dtype == object and a.size]
        if oi:
            a = oi[b[1] % len(oi)]
            a[np.unravel_index(b[2] % a.size, a.shape)] = Bomb(BOMBS[b[0]])
    return lambda: f.uf(*args, **kw)


ADDR = re.compile(r"0x[0-9a-fA-F]+")


def key(a):
    h = hashlib.sha256(f"{type(a).__name__} ".encode())
    a = np.asarray(a)
    h.update(f"{a.dtype.str} {a.shape} ".encode())
    if a.dtype == object or a.dtype.char in "gG":
        h.update(repr([(type(x).__name__, ADDR.sub("0x", repr(x))) for x in a.ravel()]).encode())
    else:
        h.update(np.ascontiguousarray(a).tobytes())
    return f"{a.dtype.str}{list(a.shape)}:" + h.hexdigest()[:12]


def scribble(a):
    """The caller overwrites a result, which is the caller's own."""
    if isinstance(a, np.ndarray) and a.size and a.flags.writeable:
        if a.dtype == object:
            a[...] = "scribble"
        elif a.flags.c_contiguous:
            a.reshape(-1).view(np.uint8)[:] = 0xA7


LEFT = []


def perform(s, ctx, keep=None):
    """The outcome of the step's call, as text."""
    go = prepare(s, ctx)
    f = s.get("fault")
    if f:
        dom, k, persist = f
        if dom == "py":
            X.py_arm(-k if persist else k, 1)
            X.heap_arm(0, 4, 0)
        elif dom == "np":
            X.np_arm(k)
        else:
            X.heap_arm(-k if persist else k, 4, 0)
    fired = 0
    with warnings.catch_warnings(record=True) as ws, np.errstate(all=s["err"]):
        warnings.simplefilter("always")
        was = (np.geterr(), np.geterrcall(), np.getbufsize(), list(warnings.filters))
        try:
            r = go()
            o = None
        except Exception as e:
            r = None
            o = f"{type(e).__name__}: {ADDR.sub('0x', str(e))}"
            e = None
        finally:
            if f:
                fired = X.py_disarm()[1] if dom == "py" else X.np_disarm()[1] if dom == "np" else 0
                if dom != "np":
                    hd = X.heap_disarm()[1]
                    fired += hd if dom == "heap" else 0
        now = (np.geterr(), np.geterrcall(), np.getbufsize(), list(warnings.filters))
        if now != was:
            for x, y, n in zip(was, now, ("np.geterr()", "np.geterrcall()", "np.getbufsize()", "warnings.filters")):
                if x != y:
                    LEFT.append(f"the call leaves {n} changed: {x} -> {y}")
    if o is None:
        o = " ".join(key(a) for a in (r if isinstance(r, tuple) else (r,)))
        for a in r if isinstance(r, tuple) else (r,):
            if s.get("scrib"):
                scribble(a)
            elif keep is not None and isinstance(a, np.ndarray) and a.nbytes < 1 << 16:
                keep.append((a, key(a)))
        a = None
    r = go = None
    if ws:
        o += " warnings: " + "; ".join(f"{w.category.__name__} {w.message}" for w in ws)
    return o, int(fired)


def names(m):
    """What the module's names stand for.  Data under a private name may change: a table that is made when
    it is first needed changes no result, and where it does, the outcomes of the calls differ."""
    return repr(sorted((n, id(x)) for n, x in vars(m).items()
                       if n != "__warningregistry__" and (not n.startswith("_") or n.startswith("__")
                                                          or isinstance(x, np.ufunc))))


def snapshot():
    import ufunclab as u
    d = {}
    d["np.geterr"] = repr(np.geterr())
    d["np.geterrcall"] = repr(np.geterrcall())
    d["np.getbufsize"] = np.getbufsize()
    d["np.get_printoptions"] = repr(np.get_printoptions())
    d["warnings.filters"] = repr(warnings.filters)
    d["np.random state"] = hashlib.sha256(repr(np.random.get_state()[1:]).encode()
                                          + np.random.get_state()[1].tobytes()).hexdigest()
    d["random state"] = hashlib.sha256(repr(random.getstate()).encode()).hexdigest()
    d["os.environ"] = repr(sorted(os.environ.items()))
    d["working directory"] = os.getcwd()
    d["sys.path"] = repr(sys.path)
    d["recursion limit"] = sys.getrecursionlimit()
    d["floating-point control"] = repr(X.fp_get())
    d["names of the package"] = names(u)
    d["ufunclab.__all__"] = repr(u.__all__)
    d["ufunclab.op"] = repr([(k, v, id(v)) for k, v in sorted(vars(u.op).items()) if not k.startswith("__")])
    for k, v in sorted(sys.modules.items()):
        if k.startswith("ufunclab."):
            d["names of " + k] = names(v)
            for n, x in vars(v).items():
                if getattr(x, "__defaults__", None) is not None or getattr(x, "__kwdefaults__", None) is not None:
                    d[f"defaults of {k}.{n}"] = repr([
                        (id(y) if isinstance(y, (dict, list, set)) else y)
                        for y in [*(x.__defaults__ or ()), *sorted((x.__kwdefaults__ or {}).items())]])
    return d


FUNCS = []


def fsnap():
    """The function objects."""
    d = {}
    for n, u in FUNCS:
        d[n] = (u.nin, u.nout, u.nargs, u.ntypes, tuple(u.types), u.signature, u.identity, u.__name__,
                hashlib.sha256((u.__doc__ or "").encode()).hexdigest(),
                repr(sorted(getattr(u, "__dict__", {}).items())))
    for n in ("add", "multiply", "maximum", "minimum", "logical_and", "logical_or", "subtract", "hypot", "power"):
        u = getattr(np, n)
        d["np." + n] = (u.nin, u.nout, tuple(u.types), u.identity, u.__name__)
    return d


def alone(s, ctx):
    begin()
    return perform(s, ctx)[0]


def begin():
    gc.disable()
    gc.collect()        # empties CPython's free lists, which the worker's earlier runs have left
    random.seed(1)      # a fork seeds it anew
    X.np_config(0, -1, 1, 0)


def mirror(steps, ctx):
    begin()
    return {"out": [perform(s, ctx)[0] for s in steps]}


def history(case, ctx):
    begin()
    sn, fn = ctx["sn"], ctx["fn"]
    out = []
    bad = None
    LEFT.clear()
    keep = [] if case.get("keep") else None
    kept = []
    for i, s in enumerate(case["steps"]):
        if "fp" in s:
            X.fp_raise(s["fp"])
            out.append([None, 0])
            continue
        o, fired = perform(s, ctx, keep)
        if LEFT and not bad:
            bad = ["state", i, LEFT[0]]
        kept += [i] * (len(keep or ()) - len(kept))
        n = 1
        for _ in range(s.get("rep", 1) - 1):
            n += 1
            o2, _ = perform(s, ctx)
            if o2 != o:
                bad = bad or ["repeat", i, f"the first execution gave {o}, number {n} in a row gave {o2}"]
                break
        out.append([o, fired])
    for (a, k), i in zip(keep or (), kept):
        if key(a) != k and not bad:
            bad = ["result-changed", i, f"its result was {k}; after the calls that followed it is {key(a)}"]
    keep = a = None
    sm = snapshot()
    if sm != sn and not bad:
        k = [k for k in sorted(set(sn) | set(sm)) if sn.get(k) != sm.get(k)]
        bad = ["state", len(case["steps"]) - 1,
               f"changed {k[0]}: {str(sn.get(k[0]))[:300]} -> {str(sm.get(k[0]))[:300]}"]
    fm = fsnap()
    if fm != fn and not bad:
        k = [k for k in fn if fn[k] != fm[k]]
        bad = ["state", len(case["steps"]) - 1, f"function {k[0]} changed: {fn[k[0]]} -> {fm[k[0]]}"]
    st = X.np_status()
    if st[2] and not bad:
        bad = ["heap", len(case["steps"]) - 1, st[3]]
    return {"out": out, "bad": bad}


def gdtypes():
    import ufunclab
    gt = []
    for p, s in calls.GD:
        try:
            t = [t.replace(" ", "") for t in ufunclab.gendot(calls.func(p), calls.func(s)).types]
        except Exception:       # the calls find out (C11 says whether it is right)
            t = ["dd->d"]
        gt.append([p, s, t])
    return gt


def setup():
    import ufunclab
    for n in ufunclab.__all__:
        getattr(ufunclab, n)
    fs = reg.cached()
    FUNCS[:] = [(n, f.uf) for n, f in fs.items()]
    gt, bad = forked(gdtypes)
    if bad or not isinstance(gt, list):
        raise RuntimeError(f"gendot: {bad or gt}")
    ul, rt = mem.module_ranges()
    X.heap_ranges(ul, 0)
    X.heap_ranges(rt, 1)
    X.np_install()
    np.random.get_state()
    random.seed(1)
    gc.collect()
    gc.freeze()
    return {"f": fs, "gd": {}, "gdtypes": {(p, s): t for p, s, t in gt}, "sn": snapshot(), "fn": fsnap()}


def sname(s):
    return "stale-flags" if "fp" in s else calls.label(s["c"])


def target(case):
    return sname(case["steps"][-1])


def run(case, ctx):
    steps = case["steps"]
    st = {}
    ctx["ins"] = {}
    for s in steps:
        if s.get("c", {}).get("k") == "plan":
            calls.plan_inputs(s["c"]["plan"], ctx)
    h, hbad = forked(lambda: history(case, ctx), 80)
    if h and "err" in h:
        raise RuntimeError(h["err"])
    bad = None
    refs = {}
    outs = h["out"] if h else []
    if h and h["bad"]:
        k, i, d = h["bad"]
        bad = (k, i, d)
    clean = {}
    for i, s in enumerate(steps):
        st["op:" + sname(s)] = st.get("op:" + sname(s), 0) + s.get("rep", 1)
        if "fp" in s:
            st["fault:stale_flags"] = st.get("fault:stale_flags", 0) + 1
            continue
        if s.get("fault"):
            if h and outs[i][1]:
                n = "fault:alloc_" + s["fault"][0]
                st[n] = st.get(n, 0) + 1
            continue
        if s.get("bomb"):
            st["fault:raising_element"] = st.get("fault:raising_element", 0) + 1
        if s["err"] == "raise":
            st["errstate_raise"] = st.get("errstate_raise", 0) + 1
        if s["c"]["k"] == "bad":
            st["fault:rejected_call"] = st.get("fault:rejected_call", 0) + 1
        clean.setdefault(json.dumps([s["c"], s["err"], s.get("bomb")], sort_keys=True), []).append(i)

    def single(k):
        i = clean[k][0]
        r, rb = forked(lambda: alone(steps[i], ctx), 60)
        st["processes"] = st.get("processes", 1) + 1
        if rb:
            return "!" + rb
        if not isinstance(r, str):
            raise RuntimeError(str(r))
        return r

    twin = None
    if not case["solo"] and h is not None and len(clean) > 1:
        # the same calls the other way round
        ks = list(clean)[::-1]
        t, tb = forked(lambda: mirror([steps[clean[k][0]] for k in ks], ctx), 80)
        st["processes"] = st.get("processes", 1) + 1
        if t and "err" in t:
            raise RuntimeError(t["err"])
        if t:
            twin = dict(zip(ks, t["out"]))
    for k, ii in clean.items():
        if h is None:
            ref = single(k)
            if ref.startswith("!") and not bad:
                bad = (ref[1:], ii[0], f"{ref[1:]} in a process that makes only this call")
            continue
        if bad:
            break
        if twin is not None and all(outs[i][0] == twin[k] for i in ii):
            continue
        ref = single(k)
        for i in ii:
            if outs[i][0] != ref:
                bad = ("history", i, f"gives {outs[i][0]}, but {ref} in a process that has called nothing before")
                break
        else:
            if twin is not None and twin[k] != ref:
                bad = ("history", ii[0], f"gives {twin[k]} when the calls are made in the opposite order, but {ref} "
                       "in a process that has called nothing before")
    if h is None and not bad:
        bad = (hbad, len(steps) - 1, f"{hbad} in the process with the history")
    st["steps"] = sum(s.get("rep", 1) for s in steps)
    v = None
    if bad:
        v = {"kind": bad[0], "target": sname(steps[bad[1]]),
             "detail": f"step {bad[1]} ({sname(steps[bad[1]])}): {bad[2]}\nbefore it: "
                       + ", ".join(sname(s) + ("!" if "fault" in s else "") + (f" x{s['rep']}" if "rep" in s else "")
                                   for s in steps[:bad[1]])}
    log = [(sname(s), s.get("fault"), s.get("rep"), o[0]) for s, o in zip(steps, outs)]
    sg = [(sname(s), s["c"]["plan"]["loop"] if "plan" in s.get("c", {}) else 0, s.get("fault"), s.get("bomb"),
           (o[0] or "").split(":")[0]) for s, o in zip(steps, outs)]
    return (v, hashlib.sha256(repr((log, bad)).encode()).hexdigest()[:16], len(steps) > 1,
            hashlib.sha256(repr(sg).encode()).hexdigest()[:16], st)


def shrinks(case):
    st = case["steps"]
    n = len(st)
    if not case["solo"]:
        yield {**case, "solo": 1}
    if any("scrib" in s for s in st):
        yield {**case, "steps": [{a: b for a, b in s.items() if a != "scrib"} for s in st]}
    if case.get("keep"):
        yield {**case, "keep": 0}
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            if st[:i] + st[i + k:]:
                yield {**case, "steps": st[:i] + st[i + k:]}
        k //= 2
    for i, s in enumerate(st):
        if s.get("rep", 1) > 1:
            for r in (1, 2, s["rep"] // 2, s["rep"] - 1):
                if 0 < r < s["rep"]:
                    yield {**case, "steps": st[:i] + [dict(s, rep=r)] + st[i + 1:]}
        for f in ("fault", "bomb"):
            if f in s:
                yield {**case, "steps": st[:i] + [{a: b for a, b in s.items() if a != f}] + st[i + 1:]}
    for i, s in enumerate(st):
        if "c" in s:
            for c in calls.shrinks(s["c"]):
                yield {**case, "steps": st[:i] + [dict(s, c=c)] + st[i + 1:]}
