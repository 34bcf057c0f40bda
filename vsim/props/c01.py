"""C01: element-wise results do not depend on how the elements are delivered."""

import numpy as np

from .. import deliver as D
from .. import reg

ID = "C01"
LEVEL = "exploration"
VARIANT = "plain"
ENV = {}
RUNS = {"quick": 160000, "thorough": 2000000}
FUNCS = None
RULE = ("one run = one logical call of a random element-wise ufunc/loop, delivered along a random "
        "plan (chunks and their order, strides, byte order, alignment, casting buffers, buffer "
        "size, where-mask, aliasing of out); non-trivial when the plan has at least one delivery "
        "fault; distinct by function, loop and plan without the data")
MEASURE = "hash of (function, loop, shapes, layout of every operand, chunk schedule, keywords)"
REAL = "ufunclab inner loops as compiled for release; NumPy's dispatcher and iterator (API runs)"
STUB = "in raw runs NumPy's iterator is replaced by the simulator's chunk scheduler"
ASSUMPTIONS = ["NumPy's own casting, byte swapping and masking are correct",
               "the reference is the same loop fed one element per call on private memory"]


def want(f):
    return not f.gufunc


def funcs():
    return reg.cached()


def gen(rng, tier):
    fs = [f for f in funcs().values() if want(f)]
    f = fs[rng.randrange(len(fs))]
    p = D.gen_plan(rng, f)
    if rng.random() < .35:
        p["hw"] = [rng.choice([0, .001, .01, .05, .3, 1.0]) for _ in range(f.nin)]
    return D.share(rng, f, p)


def setup():
    return {"f": reg.cached()}


def target(case):
    return case["f"]


def run(case, ctx):
    f = ctx["f"][case["f"]]
    st = D.features(case)
    st["op:" + f.name] = 1
    nontrivial = any(k.startswith("fault:") for k in st)
    with np.errstate(all="ignore"):
        ins = D.logical_inputs(f, case)
        ref = D.reference(f, case, ins)
        try:
            ex = D.execute(f, case, ins)
        except Exception as e:
            v = {"kind": f"raised-{type(e).__name__}", "target": f.name,
                 "detail": f"{f.name} {f.types[case['loop']]}: {e}"}
            return v, "exc", nontrivial, "", st
        bad = ex.viol or D.compare(f, case, ref, ex, exact=(not f.gufunc))
    v = None
    if bad:
        v = {"kind": bad[0], "target": f.name,
             "detail": f"{f.name} {f.types[case['loop']]}: {bad[1]}"}
    return v, D.digest(ex.outs), nontrivial, D.signature(case), st


def shrinks(case):
    return D.shrink_plan(case)
