"""C03: concurrent calls from several threads behave as if each ran alone."""

import copy
import sys
import threading

import numpy as np

from .. import deliver as D
from .. import reg
from . import c02

try:
    import _simext as X
except ImportError:
    X = None

ID = "C03"
LEVEL = "exploration"
VARIANT = "cov"
ENV = {}
NONDET = "note"
RUNS = {"quick": 30000, "thorough": 1000000}
RECHECK = {"quick": 600, "thorough": 4000}
RULE = ("one run = 2 to 4 real threads, each with 1 to 3 calls (inner loops without the GIL, NumPy "
        "calls, Python wrappers, gendot gufuncs; mostly the same function), of which the simulator "
        "lets exactly one run at a time; the baton may move at every basic block of the extension "
        "modules and at every line or bytecode of the Python wrappers; non-trivial when the baton "
        "moved at least twice while at least two threads were inside calls; distinct by functions "
        "and by the schedule that was executed")
MEASURE = "hash of (functions, sequence of baton moves with the position of every thread)"
REAL = "ufunclab's inner loops (compiled with basic-block callbacks), ufunclab's Python code, NumPy, CPython"
STUB = "the operating system's thread scheduler (replaced by the seeded baton)"
ASSUMPTIONS = ["interleavings are at basic-block granularity and sequentially consistent",
               "code that holds the GIL is atomic between bytecodes"]

GD = [("multiply", "add"), ("minimum", "maximum"), ("add", "ul:gmean"), ("logical_and", "logical_or"),
      ("multiply", "ul:argmax"), ("subtract", "ul:rms"), ("multiply", "ul:kbnsum"), ("add", "multiply"),
      ("multiply", "ul:all_same"), ("hypot", "ul:peaktopeak")]


def gen_call(rng, f, loop=None):
    r = rng.random()
    if f is None:
        w = c02.gen_wrapped(rng)
        return {"k": "wrap", "c": w}
    if f == "gd":
        p, s = rng.choice(GD)
        return {"k": "gd", "prod": p, "sum": s, "n": rng.choice([1, 2, 3, 7, 16]),
                "N": rng.choice([1, 2, 5, 40]), "dseed": rng.randrange(1 << 40),
                "tc": rng.choice("fd"), "make": int(rng.random() < .3),
                "nogil": 1}
    plan = D.gen_plan(rng, f, raw=(r < .8), big=.05,
                      loops=[loop] if loop is not None else [i for i, t in enumerate(f.types) if "O" not in t] or None)
    if not plan["raw"] and plan["outer"] and rng.random() < .8:
        # NumPy releases the GIL for more than 500 elements
        plan["outer"] = [rng.choice([501, 520, 600])]
        for i in range(len(plan["bc"])):
            plan["bc"][i] = plan["bc"][i][:1]
        if not any(b[0] for b in plan["bc"]):
            plan["bc"][0] = [1]
        plan["buf"] = 8192
        plan.pop("where", None)
        plan["core"] = {k: min(v, 5) for k, v in plan["core"].items()}
        for d, v in plan["core"].items():
            plan["core"][d] = max(v, reg.MIN_N.get(f.base, 0))
    elif plan["raw"]:
        plan["nogil"] = 1
        if D.prod(plan["outer"]) > 60:
            plan["outer"] = [rng.choice([2, 5, 9, 33])]
            plan["chunks"] = [[0, plan["outer"][0]]]
    return {"k": "plan", "plan": plan}


def gen(rng, tier):
    fs = reg.cached()
    nt = rng.choice([2, 2, 2, 3, 3, 4])
    names = list(fs)

    def pick():
        q = rng.random()
        if q < .16:
            return None
        if q < .26:
            return "gd"
        while True:
            f = fs[names[rng.randrange(len(names))]]
            if any("O" not in t for t in f.types):
                return f

    same = rng.random() < .75
    f0 = pick()
    oneloop = same and rng.random() < .6
    loop = None
    threads = []
    for t in range(nt):
        calls = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            calls.append(gen_call(rng, f0, loop) if same else gen_call(rng, pick()))
            if oneloop and calls[-1]["k"] == "plan":
                loop = calls[-1]["plan"]["loop"]
        threads.append(calls)
    c = {"threads": threads,
         "sched": {"seed": rng.randrange(1 << 60), "p0": rng.choice([1, 2, 5, 20, 100, 500]),
                   "p1": rng.choice([1, 2, 4, 10]), "w": [rng.choice([1, 1, 3, 10]) for _ in range(nt)],
                   "limit": rng.choice([3, 20, 300, 1500])},
         "trace": rng.choice(["line", "opcode"]) if any(
             x["k"] == "wrap" or x.get("make") for t in threads for x in t) else ""}
    if isinstance(f0, reg.Func) and rng.random() < .2:
        # one array, its rows dealt out to the threads in turn
        call = None
        while call is None or not call["plan"]["raw"]:
            call = gen_call(rng, f0)
        c["deal"] = call["plan"]
        c["deal"]["outer"] = [nt * rng.choice([1, 2, 5, 9])]
        for i in range(len(c["deal"]["bc"])):
            c["deal"]["bc"][i] = c["deal"]["bc"][i][:1]
        if rng.random() < .4:
            # all threads read the same row
            c["deal"]["bc"] = [[0] for _ in c["deal"]["bc"]]
        c["threads"] = [[] for _ in range(nt)]
        c["trace"] = ""
    c["f"] = c["deal"]["f"] if "deal" in c else label(threads[0][0])
    return c


def label(call):
    return {"plan": lambda: call["plan"]["f"], "wrap": lambda: call["c"]["f"],
            "gd": lambda: "gendot"}[call["k"]]()


def setup():
    import ufunclab
    for n in ufunclab.__all__:
        getattr(ufunclab, n)
    fs = reg.cached()
    gds = {}
    for p, s in GD:
        try:
            gds[p, s] = ufunclab.gendot(gd_func(p), gd_func(s))
        except Exception:       # the calls find out (C11 says whether it is right)
            pass
    return {"f": fs, "gd": gds}


def gd_func(n):
    import ufunclab
    return getattr(ufunclab, n[3:]) if n.startswith("ul:") else getattr(np, n)


def target(case):
    return case["f"]


def do_call(call, ctx, ins, keep=None):
    """The outcome of one call as comparable data."""
    try:
        if call["k"] == "plan":
            f = ctx["f"][call["plan"]["f"]]
            rep = set()
            with np.errstate(all="call", call=lambda kind, flags: rep.add(kind)):
                ex = D.execute(f, call["plan"], ins)
            fl = [k for b, k in ((1, "invalid"), (4, "divide"), (8, "overflow")) if ex.flags & b]
            return ("ok", ex.viol, [a.copy() for a in ex.outs], sorted(rep - {"underflow"}) + fl)
        if call["k"] == "wrap":
            rs = []
            v, d, st = c02.run_wrapped(call["c"], rs)
            if keep is not None:
                keep += [(r, D.digest([D.native(r)])) for r in rs]
            return ("ok", v, d)
        x, y = ins
        with np.errstate(all="ignore"):
            if call["make"] or (call["prod"], call["sum"]) not in ctx["gd"]:
                import ufunclab
                g = ufunclab.gendot(gd_func(call["prod"]), gd_func(call["sum"]))
            else:
                g = ctx["gd"][call["prod"], call["sum"]]
            t = [i for i, s in enumerate(g.types) if s.startswith(call["tc"] * 2 + "->")][0]
            o = np.empty(call["N"], np.dtype(g.types[t][-1]))
            fl = X.call_loop(g, t, (x.ctypes.data, y.ctypes.data, o.ctypes.data), (call["N"], call["n"]),
                        (x.strides[0], y.strides[0], o.strides[0], x.strides[1], y.strides[1]), 1)
        return ("ok", None, [o], fl & 13)
    except Exception as e:
        return ("exc", type(e).__name__, str(e))


def same(a, b):
    if a[0] != b[0] or a[1] != b[1] or a[3:] != b[3:]:
        return False
    if isinstance(a[2], list):
        return len(a[2]) == len(b[2]) and all(
            x.dtype == y.dtype and x.shape == y.shape and D.nan_eq(x, y) for x, y in zip(a[2], b[2]))
    return a[2] == b[2]


def call_inputs(call, ctx):
    if call["k"] == "plan":
        with np.errstate(all="ignore"):
            return D.logical_inputs(ctx["f"][call["plan"]["f"]], call["plan"])
    if call["k"] == "gd":
        r = np.random.Generator(np.random.PCG64(call["dseed"]))
        return [(r.integers(1, 9, (call["N"], call["n"])) / 4).astype(call["tc"]) for _ in "xy"]
    return None


def run_threads(case, bodies):
    s = case["sched"]
    nt = len(bodies)
    rep = case.get("replay")
    X.sched_setup(nt, s["seed"], s["p0"], s["p1"], (s["w"] + [1] * 8)[:nt], s["limit"],
                  [tuple(x) for x in rep] if rep is not None else None)
    opc = case.get("trace") == "opcode"

    def local(frame, event, arg):
        if event == "line" or event == "opcode":
            X.sched_yield(1)
        return local

    def tracer(frame, event, arg):
        if "/ufunclab/" in frame.f_code.co_filename:
            if opc:
                frame.f_trace_opcodes = True
            return local
        return None

    def main(t):
        X.sched_enter(t)
        try:
            if case.get("trace"):
                sys.settrace(tracer)
            try:
                bodies[t]()
            finally:
                sys.settrace(None)
        finally:
            X.sched_leave()

    th = [threading.Thread(target=main, args=(t,)) for t in range(nt)]
    if case.get("trace"):
        # The interpreter's instrumentation is global: switch it on before the run and off
        # after it, so that the events do not depend on which thread starts tracing first.
        sys.settrace(lambda f, e, a: None)
        opcode_events()
        threading.settrace(None)
    try:
        for t in th:
            t.start()
        X.sched_start()
        for t in th:
            t.join()
    finally:
        if case.get("trace"):
            sys.settrace(None)
    return X.sched_result()


def opcode_events():
    """Makes the interpreter deliver opcode events from now on."""
    def probe(frame, event, arg):
        frame.f_trace_opcodes = True
        return probe
    old = sys.gettrace()
    for _ in range(2):
        sys.settrace(probe)
        (lambda: None)()
        sys.settrace(old)


def run(case, ctx):
    nt = len(case["threads"])
    st = {}
    bad = None
    outs = []
    who = case["f"]
    if "deal" in case:
        plan = case["deal"]
        f = ctx["f"][plan["f"]]
        with np.errstate(all="ignore"):
            ins = D.logical_inputs(f, plan)
        N = plan["outer"][0]
        _, tout = f.loop_types(plan["loop"])
        with np.errstate(all="ignore"):
            ref = D.reference(f, plan, ins)
        L = [D.Layout(ins[k], plan["lay"][k], plan["poison"]) for k in range(f.nin)]
        LO = []
        for k in range(f.nout):
            cs = D.core_shape(f, f.nin + k, plan["core"])
            LO.append(D.Layout(D.out_init(f, plan, k, (N,) + cs, np.dtype(tout[k])),
                               plan["lay"][f.nin + k], plan["poison"]))
        views = [l.view for l in L + LO]
        steps, cst = [], []
        for v in views:
            steps.append(v.strides[0] if v.shape[0] == N and N != 1 else 0)
            cst += list(v.strides[1:])
        dims = tuple(int(d) if d.isdigit() else plan["core"][d] for d in f.dims)
        ptr = [v.__array_interface__["data"][0] for v in views]

        def body(t):
            X.call_loop(f.uf, plan["loop"], tuple(p + t * s for p, s in zip(ptr, steps)),
                        (len(range(t, N, nt)),) + dims, tuple(s * nt for s in steps) + tuple(cst), 1)

        steps_n, h, sw = run_threads(case, [lambda t=t: body(t) for t in range(nt)])
        ex = D.Exec()
        ex.outs = [D.native(l.view) for l in LO]
        for k, l in enumerate(L):
            if l.changed():
                bad = ("input-modified", f"input {k} was modified")
        for k, l in enumerate(LO):
            if l.outside_changed():
                bad = ("stray-write", f"memory outside output {k} was modified")
        bad = bad or D.compare(f, plan, ref, ex, exact=(not f.gufunc))
        if bad:
            bad = (bad[0], f"{f.name} {f.types[plan['loop']]}, rows dealt out to {nt} threads: {bad[1]}")
        outs = ex.outs
        st["op:" + f.name] = 1
        st["fault:interleaved_rows"] = 1
        if not any(b[0] for b in plan["bc"]):
            st["fault:shared_inputs"] = 1
        got = None
    else:
        ins = [[call_inputs(c, ctx) for c in t] for t in case["threads"]]
        alone = [[do_call(c, ctx, i) for c, i in zip(t, ti)] for t, ti in zip(case["threads"], ins)]
        got = [[] for _ in range(nt)]
        keep = []

        def body(t):
            for c, i in zip(case["threads"][t], ins[t]):
                k = []
                got[t].append(do_call(c, ctx, i, k))
                keep.extend((t, c, a, d) for a, d in k)

        steps_n, h, sw = run_threads(case, [lambda t=t: body(t) for t in range(nt)])
        for t in range(nt):
            for j, c in enumerate(case["threads"][t]):
                st["op:" + label(c)] = st.get("op:" + label(c), 0) + 1
                a = alone[t][j]
                b = got[t][j] if j < len(got[t]) else ("exc", "missing", "")
                if b[0] == "exc":
                    st["calls_raising"] = st.get("calls_raising", 0) + 1
                outs += b[2] if isinstance(b[2], list) else []
                if bad is None and not same(a, b):
                    bad = ("differs-from-alone",
                           f"thread {t} call {j} ({label(c)}): got {show(b)}, alone {show(a)}")
                    who = label(c)
        for t, c, a, d in keep:
            if bad is None and D.digest([D.native(a)]) != d:
                bad = ("result-changed", f"thread {t}: the result of {label(c)} was changed by later calls")
                who = label(c)
        keep = a = None
    nsw = len(sw)
    st["fault:preemption"] = nsw
    st["steps"] = steps_n
    if case.get("trace"):
        st["fault:python_preemption_runs"] = 1
    sig = f"{case['f']}:{h}"
    v = None
    if bad:
        v = {"kind": bad[0], "target": who, "detail": bad[1], "sched": [list(x) for x in sw]}
    dg = D.digest(outs) + f":{h:x}" + (repr([[x[:2] for x in g] for g in got]) if got else "")
    import hashlib
    return v, hashlib.sha256(dg.encode()).hexdigest()[:16], nsw >= 2 + nt, sig, st


def show(o):
    if o[0] == "exc":
        return f"{o[1]}: {o[2]}"
    if isinstance(o[2], list):
        return "[" + ", ".join(np.array2string(x.ravel()[:8], threshold=8) for x in o[2]) + f"] reporting {o[3:]}"
    return str(o[1] or o[2])[:200]


def concretize(case, v):
    if case.get("replay") is None and "sched" in v:
        return dict(case, replay=v["sched"])
    return None


def shrinks(case):
    rep = case.get("replay")
    if rep is not None:
        n = len(rep)
        k = max(1, n // 2)
        while k >= 1:
            for i in range(0, n, k):
                yield dict(case, replay=rep[:i] + rep[i + k:])
            if k == 1 or n > 400:
                break
            k //= 2
    if "deal" not in case:
        if len(case["threads"]) > 2:
            for t in range(len(case["threads"])):
                yield dict(case, threads=case["threads"][:t] + case["threads"][t + 1:], replay=None)
        for t, calls in enumerate(case["threads"]):
            if len(calls) > 1:
                for j in range(len(calls)):
                    q = copy.deepcopy(case)
                    del q["threads"][t][j]
                    yield q
