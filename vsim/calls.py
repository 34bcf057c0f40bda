"""A catalogue of calls of everything the package exposes, as JSON, for the checks that do not
care which function is called but what happens around the call."""

import os

import numpy as np

from . import deliver as D
from . import mem
from . import reg
from .props import c02

GD = [("multiply", "add"), ("minimum", "maximum"), ("add", "ul:gmean"), ("logical_and", "logical_or"),
      ("multiply", "ul:argmax"), ("subtract", "ul:rms"), ("multiply", "ul:kbnsum"), ("add", "multiply"),
      ("multiply", "ul:all_same"), ("hypot", "ul:peaktopeak"), ("bitwise_and", "bitwise_or"),
      ("equal", "logical_and"), ("maximum", "minimum"), ("power", "add")]

BAD = ["attr", "gd_type", "gd_nin", "gd_sum", "wrap_axis", "wrap_n", "wrap_neg", "wrap_dtype", "wrap_out",
       "bc_m", "bc_float", "bc_empty", "bc_w", "gu_ndim", "gu_dims", "gu_dtype", "insp_bad", "obj_str",
       "sos_dims", "cross_dims", "minmax_empty", "first_obj"]
INSP = ["gmean", "cross3", "hypot3", "minmax", "sosfilter_ic", "step", "np:add", "np:divmod", "none",
        "tri_area_indexed", "trapezoid_pulse", "hysteresis_relay", "first"]


def label(c):
    return {"plan": lambda: c["plan"]["f"], "wrap": lambda: c["c"]["f"], "gd": lambda: "gendot",
            "insp": lambda: "ufunc_inspector", "bad": lambda: "bad:" + c["b"]}[c["k"]]()


def gen_plan_call(rng, f, wild=None, obj=None, outer_max=24, big=.04):
    loops = list(range(len(f.types)))
    if obj is True:
        loops = [i for i in loops if "O" in f.types[i]]
    elif obj is False:
        loops = [i for i in loops if "O" not in f.types[i]]
    if not loops:
        return None
    plan = D.gen_plan(rng, f, loops=loops, raw=False, big=big)
    for k in ("alias", "cast", "where"):
        plan.pop(k, None)
    if f.gufunc and not plan["out"] and f.out_dims():
        plan["out"] = 1
    while D.prod(plan["outer"]) > outer_max:
        plan["outer"] = [max(1, x // 2) for x in plan["outer"]]
    for l in plan["lay"]:
        l.pop("unal", None)
    plan["wild"] = rng.choice([0, .1, .4, 1.0]) if wild is None else wild
    plan["wm"] = [int(rng.random() < .7) for _ in range(f.nin)]
    return {"k": "plan", "plan": plan}


def gen_wrap_call(rng, wild=None):
    c = c02.gen_wrapped(rng)
    c["wild"] = rng.choice([0, .1, .4]) if wild is None else wild
    if c["tc"] not in "bBhH":
        c["defm"] = 0
    for l in c["lay"]:
        l.pop("unal", None)
    c["ix"] = rng.choice([0, 0, 1, 2, 3])
    return {"k": "wrap", "c": c}


def gen_gd_call(rng):
    p, s = rng.choice(GD)
    return {"k": "gd", "prod": p, "sum": s, "n": rng.choice([0, 1, 2, 3, 7, 16, 100, 600]),
            "N": rng.choice([0, 1, 2, 5]), "dseed": rng.randrange(1 << 40), "tc": rng.choice("?bBhHilLfdg"),
            "make": int(rng.random() < .5)}


def gen_call(rng, w=None, wild=None, obj=None):
    """w: weights of plan-gufunc, plan-ufunc, wrap, gd, insp, bad"""
    fs = reg.cached()
    names = list(fs)
    w = w or [50, 20, 12, 9, 2, 7]
    while True:
        k = rng.choices(range(6), w)[0]
        if k == 0 or k == 1:
            f = fs[rng.choice(names)]
            if f.gufunc != (k == 0):
                continue
            c = gen_plan_call(rng, f, wild, obj)
            if c is None:
                continue
            return c
        if k == 2:
            return gen_wrap_call(rng, wild)
        if k == 3:
            return gen_gd_call(rng)
        if k == 4:
            return {"k": "insp", "u": rng.choice(INSP)}
        return {"k": "bad", "b": rng.choice(BAD), "dseed": rng.randrange(1 << 30)}


def func(n):
    import ufunclab
    return getattr(ufunclab, n[3:]) if n.startswith("ul:") else getattr(np, n)


class Quiet:
    """Sends the C-level standard output elsewhere."""

    def __init__(self):
        self.null = os.open(os.devnull, os.O_WRONLY)
        self.save = os.dup(1)

    def __enter__(self):
        os.dup2(self.null, 1)

    def __exit__(self, *a):
        os.dup2(self.save, 1)


_Q = []


def quiet():
    if not _Q:
        _Q.append(Quiet())
    return _Q[0]


def plan_inputs(plan, ctx):
    """The operands' values."""
    cache = ctx.get("ins")
    if cache is not None:
        k = repr(plan)
        if k in cache:
            return cache[k]
    with np.errstate(all="ignore"):
        ins = D.logical_inputs(ctx["f"][plan["f"]], plan)
        ins = [mem.wild(a, plan["wild"] * plan["wm"][i], plan["dseed"] + 31 * i, plan["core"])
               for i, a in enumerate(ins)]
    if cache is not None:
        cache[k] = ins
    return ins


def prepare(call, ctx, fill=0xA5):
    """(callable, arrays whose memory no call may modify, their copies, operand objects).

    Everything that the call needs exists before it starts."""
    k = call["k"]
    if k == "plan":
        plan = call["plan"]
        f = ctx["f"][plan["f"]]
        ins = plan_inputs(plan, ctx)
        args, kw, keep, before = mem.build_call(f, plan, ins, fill)
        bs = plan["buf"]

        def go():
            old = np.setbufsize(bs)
            try:
                return f.uf(*args, **kw)
            finally:
                np.setbufsize(old)
        return go, keep[:f.nin], before
    if k == "wrap":
        from .props import c04
        return c04.make_wrapped(call["c"])(fill)
    if k == "gd":
        r = np.random.Generator(np.random.PCG64(call["dseed"]))
        tc = call["tc"]
        p, s = func(call["prod"]), func(call["sum"])
        g = None if call["make"] else ctx["gd"].get((call["prod"], call["sum"]))
        cand = [t for t in (ctx["gdtypes"][call["prod"], call["sum"]]) if not set(t) & set("mMO")]
        pref = [t for t in cand if t[0] == tc] or cand
        t = pref[call["dseed"] % len(pref)]
        ins = [np.asarray(r.integers(0, 2 if t[i] == "?" else 7, (call["N"], call["n"])), t[i])
               for i in range(2)]
        before = [a.copy() for a in ins]

        nd = dict(zip(("name", "doc"), call["nd"])) if "nd" in call else {}

        def go():
            import ufunclab
            h = g if g is not None else ufunclab.gendot(p, s, **nd)
            r = h(*ins, signature=t)
            if nd:      # the function object is a part of the outcome
                return r, np.array([h.__name__, h.__doc__, str(h.types), str(h.identity), str(h.signature)])
            return r
        return go, ins, before
    if k == "insp":
        import ufunclab
        u = call["u"]
        o = None if u == "none" else getattr(np, u[3:]) if u.startswith("np:") else getattr(ufunclab, u)

        def go():
            with quiet():
                r = ufunclab.ufunc_inspector(o)
            return np.array(r is None)
        return go, [], []
    return prepare_bad(call["b"], call["dseed"])


def prepare_bad(b, dseed):
    import ufunclab as ul
    r = np.random.Generator(np.random.PCG64(dseed))
    x = r.integers(0, 7, (3, 4))
    xf = r.normal(0, 1, (3, 4))
    keep = [x, xf]
    xo = np.array([1, "a", 2.5, None], object)
    table = {
        "attr": lambda: getattr(ul, "no_such_name"),
        "gd_type": lambda: ul.gendot(3, np.add),
        "gd_nin": lambda: ul.gendot(np.sin, np.add),
        "gd_sum": lambda: ul.gendot(np.add, ul.cross3),
        "wrap_axis": lambda: [ul.bincount, ul.one_hot][dseed % 2](x, 3, axis=7),
        "wrap_n": lambda: [ul.nextn_greater(xf, 2.5), 0][0] if dseed % 2 else ul.one_hot(x, "a"),
        "wrap_neg": lambda: ul.one_hot(x, -1) if dseed % 2 else ul.bincount(x, -3),
        "wrap_dtype": lambda: ul.nextn_less(x, 2) if dseed % 2 else ul.one_hot(xf, 3),
        "wrap_out": lambda: ul.one_hot(x, 3, out=np.zeros((2, 2), int)),
        "bc_m": lambda: ul.bincount(x, 2.5),
        "bc_float": lambda: ul.bincount(xf),
        "bc_empty": lambda: ul.bincount(x[:0]),
        "bc_w": lambda: ul.bincount(x, 5, weights=xf[:2]),
        "gu_ndim": lambda: ul.gmean(3.5) if dseed % 2 else ul.cross3(xf, 1.0),
        "gu_dims": lambda: ul.vdot(xf, xf[:, :2]),
        "gu_dtype": lambda: ul.gmean(np.array(["a", "b"])),
        "insp_bad": lambda: ul.ufunc_inspector(),
        "obj_str": lambda: ul.minmax(xo),
        "sos_dims": lambda: ul.sosfilter(xf, xf),
        "cross_dims": lambda: ul.cross2(xf, xf),
        "minmax_empty": lambda: [ul.minmax, ul.argmax, ul.peaktopeak][dseed % 3](x[:, :0]),
        "first_obj": lambda: ul.first(xo, ul.op.LT, "b", None),
    }
    return table[b], keep, [a.copy() for a in keep]


def norm(res):
    if not isinstance(res, tuple):
        res = (res,)
    return [D.native(np.asarray(a)) for a in res]


def outcome(go):
    """Executes a prepared call."""
    try:
        return ("ok", norm(go()))
    except Exception as e:
        return ("exc", type(e).__name__, str(e))


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "exc":
        return a[1] == b[1]
    return len(a[1]) == len(b[1]) and all(
        x.dtype == y.dtype and x.shape == y.shape and mem.native_eq(x, y) for x, y in zip(a[1], b[1]))


def show(o):
    if o[0] == "exc":
        return f"{o[1]}: {o[2]}"
    return "[" + ", ".join(f"{x.dtype}{list(x.shape)} " + np.array2string(x.ravel()[:6], threshold=6)
                           for x in o[1]) + "]"


def broken(msg):
    def f(*a, **kw):
        raise ValueError(msg)
    return f


def setup():
    import ufunclab
    for n in ufunclab.__all__:
        getattr(ufunclab, n)
    fs = reg.cached()
    gd, gt = {}, {}
    for p, s in GD:
        try:
            gd[p, s] = ufunclab.gendot(func(p), func(s))
            gt[p, s] = [t.replace(" ", "") for t in gd[p, s].types]
        except Exception as e:      # the calls find out (C11 says whether it is right)
            gd[p, s] = broken(str(e))
            gt[p, s] = ["dd->d"]
    return {"f": fs, "gd": gd, "gdtypes": gt}


def modified(keep, before):
    for i, (x, y) in enumerate(zip(keep, before)):
        if x.dtype == object:
            if any(p is not q for p, q in zip(x.ravel(), y.ravel())):
                return i
        elif x.dtype.kind in "fc":
            if x.tobytes() != y.tobytes() and not D.nan_eq(x, y):
                return i
        elif not np.array_equal(x, y):
            return i
    return None


def shrinks(call):
    """Simpler calls."""
    if call["k"] == "plan":
        p = call["plan"]
        if p.get("wild"):
            yield {"k": "plan", "plan": dict(p, wild=0)}
        for q in D.shrink_plan(p):
            yield {"k": "plan", "plan": q}
    elif call["k"] == "wrap":
        if call["c"].get("wild"):
            yield {"k": "wrap", "c": dict(call["c"], wild=0)}
        for q in c02.shrinks(call["c"]):
            yield {"k": "wrap", "c": q}
    elif call["k"] == "gd":
        for k in ("n", "N"):
            for m in (1, 2, call[k] // 2, call[k] - 1):
                if 0 < m < call[k]:
                    yield dict(call, **{k: m})
        if call["make"]:
            yield dict(call, make=0)
