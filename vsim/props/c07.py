"""C07: calls on object arrays conserve references."""

import gc
import hashlib
import random

import numpy as np

from .. import objsim as O
from .. import reg

ID = "C07"
LEVEL = "exploration"
VARIANT = "plain"
ENV = {}
RUNS = {"quick": 70000, "thorough": 1000000}
RULE = ("one run = a history of calls on simulated element objects: fresh calls, calls that reuse the out "
        "arrays of earlier calls, calls on the results of earlier calls, elements replaced and arrays dropped "
        "in between, and operations that raise; after every step each living element must have exactly the "
        "references of the arrays that hold it; non-trivial when at least two calls were made; distinct by "
        "the history")
MEASURE = "hash of the history (functions, layouts, actions, raising positions)"
REAL = "ufunclab's object loops as compiled for release, NumPy, CPython"
STUB = "the element objects (simulated, every operation is a scheduled step)"
ASSUMPTIONS = ["references are counted through sys.getrefcount and the contents of all living arrays"]

CHAIN = ["minmax", "peaktopeak", "argmax", "argmin", "argminmax", "min_argmin", "max_argmax", "all_same",
         "first", "argfirst", "ordered", "searchsortedl", "searchsortedr", "cross3", "cross2"]


def gen(rng, tier):
    names = O.functions()
    few = [rng.choice(names) for _ in range(rng.choice([1, 2, 15]))]
    steps = []
    for _ in range(rng.choice([2, 3, 4, 6, 9, 14])):
        q = rng.random()
        k = rng.randrange(1 << 30) if rng.random() < .25 else 0
        if q < .35 or not steps:
            steps.append({"do": "call", "plan": O.gen_call(rng, few), "k": k})
        elif q < .6:
            steps.append({"do": "again", "i": rng.randrange(100), "k": k})
        elif q < .8:
            steps.append({"do": "chain", "i": rng.randrange(100), "f": rng.choice(CHAIN), "r": rng.randrange(1 << 30),
                          "out": int(rng.random() < .5), "k": k})
        elif q < .9:
            steps.append({"do": "poke", "i": rng.randrange(100), "r": rng.randrange(1 << 30)})
        else:
            steps.append({"do": "drop", "i": rng.randrange(100)})
    return {"steps": steps}


def setup():
    ctx = {"f": reg.cached()}
    gc.freeze()
    return ctx


def target(case):
    p = [s for s in case["steps"] if s["do"] == "call"]
    return p[0]["plan"]["f"] if p else "-"


class Boom(BaseException):
    pass


BOOMS = O.booms(Boom)


def boom(k):
    def go(a, b):
        raise BOOMS[k // 40 % len(BOOMS)]
    return go


def run(case, ctx):
    gc.disable()
    S = O.S
    S.all.clear()
    S.tlive = 0
    live = []          # [Call or None, arrays]
    st = {}
    bad = None
    ncall = 0
    d = hashlib.sha256()
    last = "-"
    for num, s in enumerate(case["steps"]):
        do = s["do"]
        arrays = res = c = None
        plan = {}
        fn = None
        if do == "call":
            c = O.Call(ctx["f"][s["plan"]["f"]], s["plan"])
            item = [c, list(c.bases)]
            live.append(item)
            fn = c.go
            name = s["plan"]["f"]
            truth = s["plan"]["truth"]
            defer = s["plan"].get("defer", 0)
        elif do == "again":
            cs = [x for x in live if x[0] is not None]
            if not cs:
                continue
            item = cs[s["i"] % len(cs)]
            fn = item[0].go
            name = item[0].f.name
            truth = item[0].plan["truth"]
            defer = item[0].plan.get("defer", 0)
            st["fault:out_reused"] = st.get("fault:out_reused", 0) + int(item[0].outs is not None)
            cs = None
        elif do == "chain":
            name = s["f"]
            item = [None, []]
            fn = chain(s, live, item)
            truth = s["r"] & 1
            defer = s["r"] >> 1 & 1
            if fn is None:
                item = None
                continue
            live.append(item)
        elif do == "poke":
            if live:
                a = live[s["i"] % len(live)][1]
                if a and a[0].size and a[0].dtype == object:
                    b = a[0].reshape(-1) if a[0].ndim != 1 else a[0]
                    b[s["r"] % b.size] = O.E(s["r"] % 7)
                    b = None
                a = None
            continue
        else:
            if live:
                del live[s["i"] % len(live)]
            continue
        ncall += 1
        last = name
        st["op:" + name] = st.get("op:" + name, 0) + 1
        S.begin({1 + s["k"] % 40: boom(s["k"])} if s["k"] else {}, truth, defer=defer)
        outc = "ok"
        try:
            res = fn()
            for r in res:
                if isinstance(r, O.E):
                    item[1].append(np.empty((), object))
                    item[1][-1][()] = r
                elif isinstance(r, np.ndarray):
                    item[1].append(r)
            r = None
        except Boom as e:
            e.__traceback__ = None
            outc = "boom"
            st["fault:exception"] = st.get("fault:exception", 0) + 1
        except TypeError as e:
            # an element left by a function with numeric results is not an operand
            e.__traceback__ = None
            outc = "type"
        log = S.end()
        d.update(repr((outc, len(log))).encode())
        st["steps"] = st.get("steps", 0) + len(log)
        res = fn = item = c = None
        err = O.ref_errors(arrays_of(live))
        if err:
            bad = (num, name, outc, err)
            break
    live.clear()
    res = fn = item = c = arrays = a = b = None
    if not bad:
        e = O.ref_errors([])
        if e:
            bad = ("the end", last, "", e)
    gc.enable()
    v = None
    if bad:
        v = {"kind": "references", "target": bad[1],
             "detail": f"after step {bad[0]} ({bad[1]}, {bad[2]}): {bad[3]}"}
    q = []
    for s in case["steps"]:
        q.append(sorted((k, x if k != "plan" else sorted((a, b) for a, b in x.items() if a != "dseed"))
                        for k, x in s.items()))
    return v, d.hexdigest()[:16], ncall > 1, hashlib.sha256(repr(q).encode()).hexdigest()[:16], st


def arrays_of(live):
    out = []
    for c, arrs in live:
        out += arrs
    return out


def chain(s, live, item):
    """A call of s['f'] on the results of an earlier call."""
    import ufunclab as ul
    cand = [a for a in arrays_of(live) if isinstance(a, np.ndarray) and a.dtype == object and a.size]
    if not cand:
        return None
    a = cand[s["i"] % len(cand)]
    cand = None
    r = random.Random(s["r"])
    if a.ndim == 0:
        a = a.reshape(1)
    flat = a.reshape(-1) if a.ndim != 1 else a
    if flat.base is None and flat is not a and not np.shares_memory(flat, a):
        item[1].append(flat)
    n = s["f"]
    f = getattr(ul, n)
    kw = {}
    nout = {"minmax": 2, "argminmax": 2, "min_argmin": 0, "max_argmax": 0}.get(n)
    if n in ("cross2", "cross3"):
        k = int(n[-1])
        if flat.size < k:
            return None
        args = (flat[:k], flat[-k:])
        shp = () if k == 2 else (3,)
    elif n == "first":
        args = (flat, r.choice([0, 1, 2, 3, 4, 5]), flat[r.randrange(flat.size)], flat[r.randrange(flat.size)])
        shp = ()
    elif n == "argfirst":
        args = (flat, r.choice([0, 1, 2, 3, 4, 5]), flat[r.randrange(flat.size)])
        shp = ()
    elif n == "ordered":
        args = (flat, r.choice([0, 1, 2, 3, 4, 5]))
    elif n.startswith("searchsorted"):
        args = (flat, flat[r.randrange(flat.size)])
    else:
        args = (flat,)
        shp = (2,) if n == "minmax" else ()
    if s["out"] and n in ("minmax", "peaktopeak", "first", "cross2", "cross3"):
        o = np.empty(shp, object)
        for i in np.ndindex(*shp):
            o[i] = O.E(-3)
        kw["out"] = o
        item[1].append(o)
    flat = a = None

    def go():
        nonlocal args
        q, args = args, None
        x = f(*q, **kw)
        q = None
        return x if isinstance(x, tuple) else (x,)
    return go


def shrinks(case):
    st = case["steps"]
    n = len(st)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            if len(st[:i] + st[i + k:]):
                yield {"steps": st[:i] + st[i + k:]}
        k //= 2
    for i, s in enumerate(st):
        if s.get("k"):
            yield {"steps": st[:i] + [dict(s, k=0)] + st[i + 1:]}
        if s["do"] == "call":
            for p in O.shrink_call(s["plan"]):
                yield {"steps": st[:i] + [dict(s, plan=p)] + st[i + 1:]}
