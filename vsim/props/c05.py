"""C05: a failed allocation becomes MemoryError and nothing else."""

import array
import gc
import hashlib
import sys
import warnings

import numpy as np

from .. import calls
from .. import mem
from .. import reg

try:
    import _simext as X
except ImportError:
    X = None

ID = "C05"
LEVEL = "exploration"
VARIANT = "plain"
ENV = {"SIMRT_HEAP": "1"}
RUNS = {"quick": 20000, "thorough": 800000}
RULE = ("one run = one call of the package, executed first without faults to count its allocations in one "
        "domain (C heap and Python objects requested within a few frames of ufunclab's compiled code, "
        "array data), then with the k-th allocation failing (alone, or with all that follow), then "
        "without faults again, several times; non-trivial when an allocation was made to fail; distinct "
        "by function, loop, domain, position of the failure and outcome")
MEASURE = "hash of (call without data, domain, failing allocation, persistence, outcome)"
REAL = "ufunclab as compiled for release, its Python wrappers, NumPy, CPython"
STUB = "malloc (simulated heap), Python's allocators (hooks), array data allocator (NEP 49 handler)"
ASSUMPTIONS = ["allocations that NumPy or CPython make on their own account are not failed, except "
               "array data", "leaks are observed as blocks of these domains and reference counts"]
ERR = ["raise", "warn", "call"]
DOM = ["heap", "py", "np", "npall"]


def gen(rng, tier):
    fs = reg.cached()
    q = rng.random()
    if q < .22:
        f = fs[rng.choice([n for n in fs if n.startswith("sosfilter") or fs[n].base in ("mad", "rmad", "gini")])]
        call = calls.gen_plan_call(rng, f, wild=0)
        if rng.random() < .15:
            # NumPy releases the GIL only around loops over more than 500 elements.
            plan = call["plan"]
            plan["outer"] = [min(x, 2) for x in plan["outer"]]
            if plan["outer"] and rng.random() < .5:
                plan["outer"] = [1 for _ in plan["outer"][1:]] + [rng.choice([300, 600])]
                plan["core"]["n"] = min(plan["core"]["n"], 3)
            else:
                plan["core"]["n"] = rng.choice([501, 520, 700])
        dom = rng.choice(["heap", "heap", "heap", "np"])
    elif q < .45:
        call = calls.gen_gd_call(rng)
        dom = rng.choice(["heap", "py", "heap", "np"])
    elif q < .65:
        call = calls.gen_call(rng, [80, 20, 0, 0, 0, 0], wild=rng.choice([.4, 1.0]), obj=True)
        dom = rng.choice(["py", "py", "py", "heap", "np"])
    elif q < .78:
        call = calls.gen_wrap_call(rng)
        dom = rng.choice(["np", "np", "py", "heap"])
    else:
        call = calls.gen_call(rng)
        dom = rng.choice(DOM[:3])
    # How floating-point errors are handled in one of the executions with the failure.
    err = rng.choice(ERR) if rng.random() < .6 else None
    if err and call["k"] == "plan":
        call["plan"]["hw"] = [rng.choice([0, .3, .9]) for _ in range(8)]
    return {"call": call, "dom": dom, "err": err, "kr": rng.randrange(1 << 30), "persist": int(rng.random() < .3),
            "reps": rng.choice([1, 1, 2, 3])}


def setup():
    ctx = calls.setup()
    ul, rt = mem.module_ranges()
    X.heap_ranges(ul, 0)
    X.heap_ranges(rt, 1)
    X.np_install()
    gc.freeze()
    return ctx


def target(case):
    return calls.label(case["call"])


def refs(objs):
    return [sys.getrefcount(o) for o in objs]


def arm(dom, k):
    if dom == "py":
        X.py_arm(k, 1)
        X.heap_arm(0, 4, 0)
    elif dom in ("np", "npall"):
        X.np_arm(k)
        X.heap_arm(0, 4, 0)
    else:
        X.heap_arm(k, 4, 0)


def disarm(dom):
    """(allocations of the domain, failed, live heap blocks, heap errors)"""
    if dom == "py":
        n, f = X.py_disarm()
    elif dom in ("np", "npall"):
        n, f = X.np_disarm()
    h = X.heap_disarm()
    if dom == "heap":
        n, f = h[0], h[1]
    return n, f, h


def one(prep, dom, k):
    """(outcome, allocations, failures, blocks that stay live, heap message)"""
    go, keep, before = prep
    with np.errstate(all="ignore"):
        arm(dom, k)
        try:
            res = go()
            n, f, _ = disarm(dom)
            out = ("ok", calls.norm(res))
            res = None
        except Exception as e:
            n, f, _ = disarm(dom)
            out = ("exc", type(e).__name__, str(e))
            e = None
    return out, n, f


def handled(prep, dom, k, err):
    """The outcome of the call when NumPy has to act on floating-point errors."""
    go = prep[0]
    said = []
    with warnings.catch_warnings(record=True) as w, np.errstate(all=err, call=lambda *a: said.append(a)):
        warnings.simplefilter("always")
        arm(dom, k)
        try:
            go()
            n, f, _ = disarm(dom)
            out = "ok"
        except Exception as e:
            n, f, _ = disarm(dom)
            out = type(e).__name__
            e = None
        return out, f, bool(said) or any(issubclass(x.category, RuntimeWarning) for x in w)


def live_after(prep, dom, k):
    """Like one, but the heap stays armed until the result is gone, to see what is still live."""
    go = prep[0]
    with np.errstate(all="ignore"):
        arm(dom, k)
        try:
            try:
                go()
            except Exception:
                pass
            n, f, h = 0, 0, None
        finally:
            h = disarm(dom)[2]
    return h[2], h[3], h[5]


def run(case, ctx):
    call, dom = case["call"], case["dom"]
    name = calls.label(call)
    st = {"op:" + name: 1}
    gc.disable()
    X.np_config(0, 0x5A, 1, 0xA5)
    bad = None
    prep = calls.prepare(call, ctx)
    go, keep, before = prep
    objs = [o for a in keep if a.dtype == object for o in a.ravel()]
    ref, _, _ = one(prep, dom, 0)
    # The call may accumulate into out or own its out: every execution gets a fresh preparation.
    _, n, _ = one(calls.prepare(call, ctx), dom, 0)
    st["steps"] = n
    outc = []
    fails = 0
    k = 0
    if dom == "heap":
        live, herr, hmsg = live_after(calls.prepare(call, ctx), dom, 0)
        if live > 0:
            bad = ("leak", f"{live} heap blocks were not freed (no allocation failed)")
        elif herr:
            bad = ("heap", hmsg)
    if n > 0 and not bad:
        k = 1 + case["kr"] % n
        kk = -k if case["persist"] and dom in ("heap", "py") else k
        prev = None
        for rep in range(case["reps"] + 1):
            p2 = calls.prepare(call, ctx)
            o2 = [o for a in p2[1] if a.dtype == object for o in a.ravel()]
            r0 = refs(o2)
            nl0 = X.np_status()[1]
            b0 = sys.getallocatedblocks()
            out, n2, f2 = one(p2, dom, kk)
            fails += f2
            outc.append(out[0] if out[0] == "ok" else out[1])
            if out[0] == "exc" and out[1] != "MemoryError" and out[:2] != ref[:2]:
                bad = ("wrong-exception", f"raised {out[1]}: {out[2]}")
            elif out[0] == "ok" and not calls.same(out, ref):
                bad = ("wrong-result", f"returned {calls.show(out)}, expected {calls.show(ref)}")
            out = None
            r1 = refs(o2)
            if not bad and r0 != r1:
                bad = ("reference-leak", f"reference counts of the elements went from {r0[:8]} to {r1[:8]}")
            m = calls.modified(p2[1], p2[2])
            if not bad and m is not None:
                bad = ("input-modified", f"input {m} was modified")
            o2 = p2 = None
            live, herr, hmsg = live_after(calls.prepare(call, ctx), dom, kk)
            if not bad and live > 0:
                bad = ("leak", f"{live} heap blocks were not freed")
            if not bad and herr:
                bad = ("heap", hmsg)
            nst = X.np_status()
            if not bad and nst[2]:
                bad = ("heap", nst[3])
            if bad:
                break
    if n > 0 and not bad and case.get("err"):
        base, _, told = handled(calls.prepare(call, ctx), dom, 0, case["err"])
        st["fp_errors_reported"] = int(told or base == "FloatingPointError")
        got, f2, _ = handled(calls.prepare(call, ctx), dom, kk, case["err"])
        fails += f2
        outc.append("err " + got)
        if got not in ("MemoryError", base) or (got == "ok" and f2 and outc[0] == "MemoryError"):
            bad = ("wrong-exception", f"with errstate(all={case['err']!r}) the outcome is {got}, "
                   f"without the failure it is {base}, with errors ignored {outc[0]}")
    # afterwards the call works as if nothing had happened
    if not bad:
        again, _, _ = one(calls.prepare(call, ctx), dom, 0)
        if not calls.same(again, ref):
            bad = ("after-failure", f"afterwards the call gives {calls.show(again)}, expected {calls.show(ref)}")
    if not bad and fails:
        bad = leaks(call, ctx, dom, kk)
    if not bad and case["kr"] % 5 == 0:
        bad = leaks(call, ctx, dom, 0)
    go = prep = keep = before = objs = None
    gc.enable()
    if fails:
        st["fault:" + dom + ("_persistent" if case["persist"] and dom in ("heap", "py") else "")] = fails
    for o in outc:
        st["outcome_" + o] = st.get("outcome_" + o, 0) + 1
    v = None
    if bad:
        v = {"kind": bad[0], "target": name,
             "detail": f"{describe(call, ctx)}: allocation {k} of {n} ({dom}) fails"
             f"{' and all that follow' if case['persist'] else ''}: {bad[1]}"}
    s = repr((name, call.get("plan", {}).get("loop"), dom, k, n, case["persist"], outc))
    sig = hashlib.sha256(s.encode()).hexdigest()[:16]
    return v, hashlib.sha256(repr((outc, ref[0])).encode()).hexdigest()[:16], fails > 0, sig, st


def leaks(call, ctx, dom, kk):
    """Blocks that stay behind with every failing call, even after a collection of cycles."""
    if leaks1(call, ctx, dom, kk, 0) is None:
        return None
    return leaks1(call, ctx, dom, kk, 1, 50)


def leaks1(call, ctx, dom, kk, collect, N=9):
    blocks = array.array("q", [0] * N)
    npl = array.array("q", [0] * N)
    for i in range(N):
        go = calls.prepare(call, ctx)[0]
        with np.errstate(all="ignore"):
            arm(dom, kk)
            try:
                go()
            except Exception:
                pass
            disarm(dom)
        go = None
        if collect:
            gc.collect()
        npl[i] = X.np_status()[1]
        blocks[i] = sys.getallocatedblocks()
    d = [npl[i + 1] - npl[i] for i in range(N // 3, N - 1)]
    if min(d) > 0:
        return ("leak", f"{d[:5]} array data blocks stay live after each failing call")
    d = [blocks[i + 1] - blocks[i] for i in range(N // 3, N - 1)]
    # When array data cannot be allocated, NumPy's iterator itself loses a few objects.
    if min(d) > 0 and dom != "np":
        return ("leak", f"{d[:5]} Python memory blocks stay live after each failing call")
    return None


def describe(call, ctx):
    if call["k"] == "plan":
        f = ctx["f"][call["plan"]["f"]]
        return f"{f.name} {f.types[call['plan']['loop']]} core {call['plan']['core']} outer {call['plan']['outer']}"
    if call["k"] == "gd":
        return f"gendot({call['prod']}, {call['sum']}) n={call['n']} N={call['N']} make={call['make']}"
    return calls.label(call)


def shrinks(case):
    if case["reps"] > 1:
        yield dict(case, reps=1)
    if case["persist"]:
        yield dict(case, persist=0)
    if case.get("err"):
        yield dict(case, err=None)
    for kr in (0, 1, 2):
        if kr < case["kr"]:
            yield dict(case, kr=kr)
    for c in calls.shrinks(case["call"]):
        yield dict(case, call=c)
