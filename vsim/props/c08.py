"""C08: element operations may re-enter the library or change the arrays safely."""

import gc
import hashlib

import numpy as np

from .. import objsim as O
from .. import reg

ID = "C08"
LEVEL = "exploration"
VARIANT = "plain"
ENV = {"PYTHONMALLOC": "malloc", "SIMRT_HEAP": "1"}
RUNS = {"quick": 50000, "thorough": 1000000}
RULE = ("one run = one call on simulated element objects during whose operations a seeded list of actions "
        "strikes: elements of the inputs or outputs are replaced, swapped or cleared, the caller drops its "
        "arrays, the garbage collector runs, the same call or an unrelated call is made, an exception is "
        "raised; freed objects are overwritten and quarantined; non-trivial when an action struck; distinct "
        "by function, layout, shapes and actions")
MEASURE = "hash of (function, layouts, shapes, keywords, actions and the operations they struck)"
REAL = "ufunclab's object loops as compiled for release, NumPy, CPython"
STUB = ("the element objects (simulated, every operation is a scheduled step) and the C heap (filled and "
        "quarantined on release)")
ASSUMPTIONS = ["a freed object is noticed when it is written to, called or returned"]

KINDS = ["set", "set", "set", "clear", "fill", "swap", "outset", "outclear", "gc", "drop", "again", "call",
         "call", "raise", "junk", "look", "keep"]


def gen(rng, tier):
    names = O.functions()
    acts = []
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        acts.append({"k": rng.randrange(1 << 30) if rng.random() < .8 else rng.randrange(4),
                     "do": rng.choice(KINDS), "r": rng.randrange(1 << 30)})
    return {"plan": O.gen_call(rng), "acts": acts,
            "dels": int(rng.random() < .4),
            "nest": [O.gen_call(rng, [rng.choice(names)]) for _ in range(rng.choice([1, 2]))]}


def setup():
    ctx = {"f": reg.cached()}
    import _simext as X
    ctx["X"] = X
    gc.freeze()
    return ctx


def target(case):
    return case["plan"]["f"]


class Boom(BaseException):
    pass


BOOMS = O.booms(Boom)


def run(case, ctx):
    plan = case["plan"]
    f = ctx["f"][plan["f"]]
    X = ctx["X"]
    st = {"op:" + f.name: 1}
    gc.disable()
    S = O.S
    S.all.clear()
    S.tlive = 0
    # (NumPy's casts are not prepared for elements that act when they end)
    dels = bool(case.get("dels")) and not any(plan["ocast"])
    # without actions: the number of operations, and the results of the nested calls
    c = O.Call(f, plan)
    S.begin({}, plan["truth"], defer=plan.get("defer", 0), dels=dels)
    c.go()
    n = len(S.end())
    c = None
    want = []
    for p in case["nest"]:
        q = O.Call(ctx["f"][p["f"]], p)
        try:
            want.append(O.res_key(q.go()))
        except TypeError as e:
            want.append("TypeError")
        q = None
    c = O.Call(f, plan)
    blocks = list(c.bases)
    inb = list(c.inb)
    outb = [b for b in blocks if not any(b is x for x in inb)]
    bad = []
    fired = []
    kept = []
    defer = plan.get("defer", 0)
    depth = [0]

    def act(a):
        def go(x, y):
            do, r = a["do"], a["r"]
            fired.append((do, S.n))
            st["fault:" + do] = st.get("fault:" + do, 0) + 1
            if do in ("set", "clear", "fill", "swap", "junk"):
                hit(do, inb, r)
            elif do == "outset":
                hit("set", outb, r)
            elif do == "outclear":
                hit("clear", outb, r)
            elif do == "gc":
                gc.collect()
            elif do == "drop":
                # the caller's own references to its arrays
                c.args = c.outs = None
                c.kw = {}
            elif do == "again":
                if depth[0] < 2 and c.args is not None:
                    depth[0] += 1
                    try:
                        c.go()
                    except (TypeError, ValueError):
                        pass     # (NumPy locks an output that it will write back to)
                    finally:
                        depth[0] -= 1
            elif do == "call":
                if S.off:
                    return
                i = r % len(case["nest"])
                p = case["nest"][i]
                S.off = True
                try:
                    q = O.Call(ctx["f"][p["f"]], p)
                    try:
                        got = O.res_key(q.go())
                    except TypeError:
                        got = "TypeError"
                finally:
                    S.off = False
                if got != want[i]:
                    bad.append(("nested-result", f"a nested call of {p['f']} gives {str(got)[:200]}, "
                                                 f"outside it gives {str(want[i])[:200]}"))
            elif do == "raise":
                if y is not None or isinstance(x, O.T):     # (not while an element ends)
                    raise BOOMS[r % len(BOOMS)]
            elif do == "look":
                for b in blocks:
                    for i in range(len(b)):
                        if type(b[i]).__name__ in ("EA", "EB"):
                            b[i].v, b[i].uid
            elif do == "keep":
                kept.append([b[i] for b in blocks for i in range(len(b))])
        return go

    if n:
        ks = {}
        for a in case["acts"]:
            ks.setdefault(1 + a["k"] % n, []).append(act(a))

        def seq(l):
            def go(x, y):
                for z in l:
                    z(x, y)
            return go
        S.begin({k: seq(l) for k, l in ks.items()}, plan["truth"], log=False, defer=defer, dels=dels)
        outc = "ok"
        try:
            res = c.go()
            res = None
        except Boom as e:
            e.__traceback__ = None
            outc = "boom"
        except TypeError as e:
            e.__traceback__ = None
            outc = "TypeError"
        S.end()
        st["steps"] = S.n
        ks = None
    else:
        outc = "-"
    c = None
    act = None
    kept.clear()
    gc.collect(0)
    if not bad:
        e = O.ref_errors(blocks)
        if e:
            bad.append(("references", e))
    vals = [tuple(repr(x) for x in b) for b in blocks]
    X.heap_scan()
    h = X.heap_disarm()
    if h[3] and not bad:
        bad.append(("heap", h[5]))
    blocks = inb = outb = None
    gc.enable()
    v = None
    if bad:
        v = {"kind": bad[0][0], "target": f.name, "detail":
             f"{f.name} {f.types[plan['loop']]} core {plan['core']} outer {plan['outer']}, {outc}, "
             f"actions {fired[:6]}: {bad[0][1]}"}
    q = {k: x for k, x in plan.items() if k != "dseed"}
    sig = hashlib.sha256(repr((sorted(q.items()), fired)).encode()).hexdigest()[:16]
    d = hashlib.sha256(repr((outc, vals, fired)).encode()).hexdigest()[:16]
    return v, d, bool(fired), sig, st


def hit(do, bases, r):
    bases = [b for b in bases if b.size]
    if not bases:
        return
    b = bases[r % len(bases)]
    r //= 8
    i = r % b.size
    j = (r // 64) % b.size
    if do == "set":
        b[i] = O.E(r % 5)
    elif do == "clear":
        b[:] = None
    elif do == "fill":
        b[:] = O.E(r % 5)
    elif do == "swap":
        b[i], b[j] = b[j], b[i]
    elif do == "junk":
        b[i] = [None, 3, "x", 2.5, np.float32(1)][r % 5]


def shrinks(case):
    a = case["acts"]
    if case.get("dels"):
        yield dict(case, dels=0)
    if len(a) > 1:
        for i in range(len(a)):
            yield dict(case, acts=a[:i] + a[i + 1:])
    for p in O.shrink_call(case["plan"]):
        yield dict(case, plan=p)
    if len(case["nest"]) > 1:
        yield dict(case, nest=case["nest"][:1])
    for i, x in enumerate(a):
        for k in (0, 1, 2):
            if x["k"] > k:
                yield dict(case, acts=a[:i] + [dict(x, k=k)] + a[i + 1:])
        for r in (0, 8):
            if x["r"] > r:
                yield dict(case, acts=a[:i] + [dict(x, r=r)] + a[i + 1:])
