"""C06: an exception raised by an element ends the call and is what the caller sees."""

import gc
import hashlib

import numpy as np

from .. import objsim as O
from .. import reg

ID = "C06"
LEVEL = "exploration"
VARIANT = "plain"
ENV = {}
RUNS = {"quick": 60000, "thorough": 1500000}
RULE = ("one run = one call on simulated element objects, executed once without faults to list its "
        "operations on elements (comparisons, arithmetic, truth tests), and then once for each of several "
        "positions at which the operation raises, followed by the call without faults; non-trivial when an "
        "exception was raised inside the call; distinct by function, layout, shapes and raising positions")
MEASURE = "hash of (function, layouts, shapes, keywords, raising positions)"
REAL = "ufunclab's object loops as compiled for release, NumPy, CPython"
STUB = "the element objects (simulated, every operation is a scheduled step)"
ASSUMPTIONS = ["the operations before the fault are those of the fault-free execution of the same call"]


class Custom(Exception):
    pass


class Base(BaseException):
    pass


EXC = {"Value": ValueError, "Type": TypeError, "Memory": MemoryError, "Stop": StopIteration, "Zero": ZeroDivisionError,
       "KeyInt": KeyboardInterrupt, "Custom": Custom, "Base": Base, "Over": OverflowError, "Index": IndexError,
       "Runtime": RuntimeError, "Assertion": AssertionError, "Attr": AttributeError, "Rec": RecursionError,
       "NotImpl": NotImplementedError, "Key": KeyError, "Float": FloatingPointError, "OS": OSError,
       "System": SystemError, "Exit": SystemExit, "GenExit": GeneratorExit, "Import": ImportError,
       "Lookup": LookupError, "Arith": ArithmeticError, "Buffer": BufferError, "EOF": EOFError,
       "Name": NameError, "Ref": ReferenceError, "Async": StopAsyncIteration, "Warn": RuntimeWarning}


def gen(rng, tier):
    return {"plan": O.gen_call(rng), "ks": [rng.randrange(1 << 30) for _ in range(rng.choice([1, 2, 4, 8]))],
            "exc": rng.choice(list(EXC)), "full": int(rng.random() < .25)}


def setup():
    ctx = {"f": reg.cached()}
    gc.freeze()
    return ctx


def target(case):
    return case["plan"]["f"]


def run(case, ctx):
    plan = case["plan"]
    f = ctx["f"][plan["f"]]
    st = {"op:" + f.name: 1}
    gc.disable()
    O.S.all.clear()
    O.S.tlive = 0
    bad = None
    c = O.Call(f, plan)
    uid0 = O.E.count
    O.S.begin({}, plan["truth"], defer=plan.get("defer", 0))
    ref = O.res_key(c.go())
    log0 = norm(O.S.end(), uid0)
    n = len(log0)
    st["steps"] = n
    fired = 0
    pos = []
    if n:
        pos = sorted({1 + k % n for k in case["ks"]})
        if case["full"] and n <= 40:
            pos = list(range(1, n + 1))
    for k in pos:
        c = O.Call(f, plan)
        snap = c.snapshot()
        exc = EXC[case["exc"]]("injected")

        def act(a, b):
            raise exc
        uid0 = O.E.count
        O.S.begin({k: act}, plan["truth"], defer=plan.get("defer", 0))
        got = None
        try:
            res = c.go()
            res = None
        except BaseException as e:
            got = e
            got.__traceback__ = None
            got.__context__ = None
        log = norm(O.S.end(), uid0)
        fired += 1
        where = f"operation {k} of {n} ({log0[k - 1][0]}) raises {case['exc']}"
        if got is None:
            bad = ("swallowed", f"{where}: the call returned normally")
        elif got is not exc:
            bad = ("other-exception", f"{where}: the call raised {type(got).__name__}: {got}")
        elif log != log0[:k]:
            if len(log) > k:
                bad = ("goes-on", f"{where}: then {len(log) - k} more operations were started")
            else:
                bad = ("other-operations", f"{where}: the operations before it differ")
        elif c.inputs_changed(snap):
            bad = ("input-modified", f"{where}: an argument lost or changed an element")
        got = exc = act = snap = None
        if not bad:
            e = O.ref_errors(c.bases)
            if e:
                bad = ("references", f"{where}: {e}")
        if bad:
            break
        # the next call works
        if k == pos[-1] or case["full"] == 0:
            c2 = O.Call(f, plan)
            uid0 = O.E.count
            O.S.begin({}, plan["truth"], defer=plan.get("defer", 0))
            try:
                r2 = O.res_key(c2.go())
            except Exception as e:
                r2 = repr(e)
            l2 = norm(O.S.end(), uid0)
            if r2 != ref:
                bad = ("after-failure", f"{where}: the next call gives {str(r2)[:200]}, expected {str(ref)[:200]}")
            c2 = None
        if bad:
            break
    c = None
    gc.enable()
    if fired:
        st["fault:exception_" + case["exc"]] = fired
        st["fault:exception"] = fired
    v = None
    if bad:
        v = {"kind": bad[0], "target": f.name, "detail":
             f"{f.name} {f.types[plan['loop']]} core {plan['core']} outer {plan['outer']}: {bad[1]}"}
    q = {k: x for k, x in plan.items() if k != "dseed"}
    sig = hashlib.sha256(repr((sorted(q.items()), pos, case["exc"])).encode()).hexdigest()[:16]
    d = hashlib.sha256(repr((ref, log0, pos)).encode()).hexdigest()[:16]
    return v, d, fired > 0, sig, st


def norm(log, base):
    """Element numbers relative to the first element made during the call."""
    return [(a, b - base, c - base if isinstance(c, int) else c) for a, b, c in log]


def shrinks(case):
    if case["full"]:
        yield dict(case, full=0)
    if len(case["ks"]) > 1:
        for k in case["ks"]:
            yield dict(case, ks=[k])
    for p in O.shrink_call(case["plan"]):
        yield dict(case, plan=p)
    for k in (0, 1, 2):
        if case["ks"] != [k]:
            yield dict(case, ks=[k])
    if case["exc"] != "Value":
        yield dict(case, exc="Value")
