"""C09: filters resume across chunks, crashes and replays without a trace."""

import gc
import hashlib
import pickle

import numpy as np

from .. import reg

ID = "C09"
LEVEL = "exploration"
VARIANT = "plain"
ENV = {}
RUNS = {"quick": 180000, "thorough": 2000000}
RULE = ("one run = the simulated life of a signal processor: the signal arrives in pieces of seeded lengths "
        "(also empty), each piece is processed by one call that carries the documented state, outputs and "
        "state become durable at checkpoints, crashes lose what is not durable and the pieces since then "
        "arrive again, split differently; calls with wrong shapes fail in between; then the faults stop and "
        "the rest is processed; the durable output must be that of one call on the whole signal, and of "
        "each channel alone; non-trivial when the signal was processed in at least two pieces; distinct by "
        "the whole history")
MEASURE = "hash of (function, type, shapes, layouts, sequence of pieces, checkpoints, crashes and failed calls)"
REAL = "the streaming functions as compiled for release, NumPy, CPython"
STUB = "source of the pieces, durable store and crashes (simulated)"
ASSUMPTIONS = ["the carried state of backlash, hysteresis_relay and unwrap is their last output, that of "
               "backlash_sum and sosfilter_ic their second output"]

FNS = ["sosfilter_ic", "sosfilter_ic", "sosfilter_ic_contig", "sosmix", "sosrest", "backlash", "backlash_sum",
       "hysteresis_relay", "unwrap"]
TOL = {"f": 2e-4, "d": 1e-11, "g": 1e-14}


def gen(rng, tier):
    fn = rng.choice(FNS)
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 21, 40, 100])
    if rng.random() < .05:
        n = rng.choice([200, 400, 1500])
    ch = rng.choice([[], [], [1], [2], [3], [2, 2], [0], [5]])
    ev = []
    for _ in range(rng.choice([1, 2, 4, 8, 16, 30])):
        q = rng.random()
        if q < .6:
            ev.append({"do": "piece", "n": rng.choice([0, 1, 1, 2, 3, 5, 8, 30, 100]), "mode": rng.choice(
                ["new", "new", "out", "xin", "sin", "both", "axes"]), "lay": rng.randrange(8)})
        elif q < .75:
            ev.append({"do": "check"})
        elif q < .92:
            ev.append({"do": "crash"})
        else:
            ev.append({"do": "bad", "b": rng.randrange(4)})
    return {"fn": fn, "t": rng.choice("fddg"), "n": n, "ch": ch, "m": rng.choice([0, 1, 1, 2, 3, 7]),
            "sh": rng.randrange(8), "dseed": rng.randrange(1 << 40), "nan": rng.choice([0, 0, 0, .03, .2]),
            "wild": rng.choice([0, 0, 0, 1]), "amp": rng.choice([0, 0, 0, -20, -30, -60, -200, 30]),
            "quiet": int(rng.random() < .2), "ev": ev, "tail": rng.choice([1, 2, 3, 7, 50, 2000])}


def setup():
    import ufunclab as ul
    gc.freeze()
    return {"ul": ul, "f": reg.cached()}


def target(case):
    return case["fn"]


class Proc:
    """Makes the arguments of the calls: parameters may be per channel or shared."""

    def __init__(self, case, ctx):
        self.case = case
        self.ul = ctx["ul"]
        self.fn = case["fn"]
        self.ch = tuple(case["ch"])
        self.dt = np.dtype(case["t"])
        r = self.r = np.random.Generator(np.random.PCG64(case["dseed"]))
        n, m, dt, ch = case["n"], case["m"], self.dt, self.ch
        if case["wild"]:
            n = min(n, 21)      # (unstable filters)
        self.n = n
        sh = case["sh"]
        own = [ch if sh >> k & 1 else () for k in range(3)]
        x = np.cumsum(r.integers(-6, 7, ch + (n,)), axis=-1) / 4 if r.random() < .6 else \
            r.standard_normal(ch + (n,)) * 3
        if case["nan"] and n:
            k = r.random(x.shape) < case["nan"]
            x[k] = r.choice([np.nan, np.inf, -np.inf, 1e300, 1e-310, -0.0], int(k.sum()))
        if case["quiet"]:
            # pauses, in which a state decays
            x[..., int(r.integers(1, 6)):n // 2] = 0
            x[..., n // 2 + 2:] = 0
        # Everything but the coefficients is scaled by a power of two.
        amp = self.amp = 2.0 ** (max(case["amp"], -60) if case["t"] == "f" else case["amp"])
        with np.errstate(all="ignore"):
            self.x = (x * amp).astype(dt)
        if self.fn.startswith("sos"):
            # stable sections
            rad = r.uniform(0, .85, own[0] + (m,))
            th = r.uniform(0, np.pi, own[0] + (m,))
            sos = np.empty(own[0] + (m, 6))
            sos[..., :3] = r.standard_normal(own[0] + (m, 3))
            sos[..., 3] = 1
            sos[..., 4] = -2 * rad * np.cos(th)
            sos[..., 5] = rad * rad
            if case["wild"]:
                sos[..., 4:] = r.integers(-2, 3, own[0] + (m, 2)) / 2
            self.par = [sos.astype(dt)]
            zi = r.standard_normal(ch + (m, 2)) if self.fn != "sosrest" else np.zeros(ch + (m, 2))
            self.state = (zi * amp).astype(dt)
            self.score = 2
        elif self.fn == "backlash":
            self.par = [np.asarray(r.integers(0, 9, own[0]) * (amp / 4), dt)]
            self.state = np.asarray(r.integers(-4, 5, ch) * (amp / 4), dt)
            self.score = 0
        elif self.fn == "backlash_sum":
            self.par = [r.integers(-4, 5, own[0] + (m,)).astype(dt) / 4,
                        (r.integers(0, 9, own[1] + (m,)) * (amp / 4)).astype(dt)]
            self.state = (r.integers(-4, 5, ch + (m,)) * (amp / 4)).astype(dt)
            self.score = 1
        elif self.fn == "hysteresis_relay":
            lo = np.asarray(r.integers(-6, 3, own[0]) * (amp / 4), dt)
            hi = np.asarray(r.integers(-1, 9, own[0]) * (amp / 4), dt) + lo
            self.par = [lo, np.asarray(hi, dt), np.asarray(r.choice([-1., 0., 2.], own[1]), dt),
                        np.asarray(r.choice([1., 3., -1.], own[2]), dt)]
            self.state = np.asarray(r.integers(-4, 5, ch) / 4, dt)
            self.score = 0
        else:
            self.par = [np.asarray(r.choice([1., 4., 6.25, .75], own[0]) * amp, dt)]
            self.state = None
            self.score = 0

    def lay(self, a, lay):
        """a copy of a in a seeded memory layout (contiguous when lay is 0)"""
        if lay & 1 and a.ndim:
            b = np.full(a.shape[:-1] + (2 * a.shape[-1],), 77, a.dtype)[..., ::2]
        elif lay & 2 and a.ndim > 1:
            b = np.empty(a.shape[::-1], a.dtype).T
        else:
            b = np.empty(a.shape, a.dtype)
        if lay & 4 and a.ndim:
            b = b[..., ::-1]
        b[...] = a
        return b

    def call(self, x, state, fn=None, mode="new", lay=0):
        """(y, state after)"""
        ul, par = self.ul, self.par
        fn = fn or self.fn
        if fn == "sosmix":
            fn = "sosfilter_ic_contig" if mode in ("out", "xin") else "sosfilter_ic"
        if fn == "sosrest":
            fn = "sosfilter_ic"
        if fn == "sosfilter_ic_contig":
            lay = 0
            if mode == "axes":
                mode = "new"
        if fn == "unwrap":
            if state is None:
                x2 = self.lay(x, lay)
            else:
                x2 = self.lay(np.concatenate([state[..., None], x], axis=-1), lay)
        else:
            x2 = self.lay(x, lay)
        two = fn.startswith("sos") or fn == "backlash_sum"
        kw = {}
        st = None
        if state is not None and fn != "unwrap":
            st = self.lay(state, lay) if two else state.copy()
        y = zf = None
        if mode in ("out", "both", "sin"):
            y = self.lay(np.full(x2.shape, 99, self.dt), lay)
        if mode == "xin":
            y = x2
        if two:
            zf = st if mode in ("sin", "both") else self.lay(np.full(st.shape, 98, self.dt), lay)
        args = {"sosfilter_ic": lambda: (par[0], x2, st), "sosfilter_ic_contig": lambda: (par[0], x2, st),
                "backlash": lambda: (x2, par[0], st), "backlash_sum": lambda: (x2, par[0], par[1], st),
                "hysteresis_relay": lambda: (x2, *par, st), "unwrap": lambda: (x2, par[0])}[fn]()
        if y is not None:
            kw["out"] = (y, zf) if two else (y,)
        axes = mode == "axes" and x2.ndim > 1
        if axes:
            nm = {"sosfilter_ic": [(-2, -1), (0,), (-2, -1), (0,), (-2, -1)],
                  "backlash": [(0,), (), (), (0,)], "backlash_sum": [(0,), (-1,), (-1,), (-1,), (0,), (-1,)],
                  "hysteresis_relay": [(0,), (), (), (), (), (), (0,)], "unwrap": [(0,), (), (0,)]}[fn]
            kw["axes"] = nm
            i = 1 if fn == "sosfilter_ic" else 0
            args = list(args)
            args[i] = np.moveaxis(args[i], -1, 0)
        with np.errstate(all="ignore"):
            res = getattr(ul, fn)(*args, **kw)
        res = res if isinstance(res, tuple) else (res,)
        yy = np.moveaxis(res[0], 0, -1) if axes else res[0]
        if fn == "unwrap" and state is not None:
            yy = yy[..., 1:]
        yy = yy.copy()
        if two:
            return yy, res[1].copy()
        if yy.shape[-1]:
            return yy, yy[..., -1].copy()
        return yy, state


def run(case, ctx):
    p = Proc(case, ctx)
    fn, n, ev = p.fn, p.n, case["ev"]
    st = {"op:" + fn: 1}
    bad = None
    with np.errstate(all="ignore"):
        whole, wstate = p.call(p.x, p.state)
    # the life of the processor
    durable = pickle.dumps((0, [], p.state))
    pos, outs, state = pickle.loads(durable)
    pieces = 0
    hist = []
    tail = case["tail"]
    ev = list(ev)
    budget = len(ev) + 2 * n + 10
    i = 0
    while True:
        if i < len(ev):
            e = ev[i]
        elif pos < n or i == len(ev):
            e = {"do": "piece", "n": tail, "mode": "new", "lay": 0}
        else:
            break
        i += 1
        if i > budget:
            bad = ("no-progress", "the signal is not processed within the bound")
            break
        st["steps"] = st.get("steps", 0) + 1
        if e["do"] == "piece":
            k = min(e["n"], n - pos)
            if k == 0 and fn == "unwrap" and state is not None and e["mode"] == "xin":
                continue
            hist.append(k)
            before = None if state is None else state.copy()
            y, s2 = p.call(p.x[..., pos:pos + k], state, mode=e["mode"], lay=e["lay"])
            if y.shape != p.ch + (k,):
                bad = ("shape", f"piece of {k}: output shape {y.shape}")
                break
            if before is not None and not np.array_equal(before, state, equal_nan=True):
                bad = ("state-modified", "the caller's saved state was changed by the call")
                break
            state = s2
            outs.append(y)
            pos += k
            pieces += 1
        elif e["do"] == "check":
            durable = pickle.dumps((pos, outs, state))
        elif e["do"] == "crash":
            st["fault:crash"] = st.get("fault:crash", 0) + 1
            hist.append("c")
            # what is not durable is lost
            for o in outs:
                o[...] = 55
            pos, outs, state = pickle.loads(durable)
        else:
            st["fault:failed_call"] = st.get("fault:failed_call", 0) + 1
            msg = failing(p, state, e["b"], pos)
            if msg:
                bad = ("failed-call", msg)
                break
    v = None
    if not bad:
        got = np.concatenate(outs, axis=-1) if outs else np.empty(p.ch + (0,), p.dt)
        if got.shape != whole.shape:
            bad = ("shape", f"{got.shape} instead of {whole.shape}")
        scale = top(p, whole)
        if not bad:
            bad = diff(p, got, whole, scale, "output", hist)
        if not bad and wstate is not None and p.state is not None:
            bad = diff(p, state, wstate, scale, "state", hist)
        if not bad:
            bad = channels(p, whole, wstate, scale)
        if not bad and fn == "sosrest":
            with np.errstate(all="ignore"):
                y = p.ul.sosfilter(p.par[0], p.lay(p.x, case["sh"]))
            bad = diff(p, y, whole, scale, "sosfilter against sosfilter_ic from rest", hist)
    if bad:
        v = {"kind": bad[0], "target": fn, "detail":
             f"{fn} {case['t']} n={n} channels={case['ch']} m={case['m']}, history {hist[:40]}: {bad[1]}"}
    q = {k: x for k, x in case.items() if k != "dseed"}
    sig = hashlib.sha256(repr(sorted(q.items())).encode()).hexdigest()[:16]
    d = hashlib.sha256(np.nan_to_num(whole.astype(float)).tobytes() + repr(hist).encode()).hexdigest()[:16]
    return v, d, pieces > 1, sig, st


def top(p, whole):
    def big(arrays, s):
        for a in arrays:
            if a is not None and np.asarray(a).size:
                b = np.abs(np.asarray(a, np.longdouble))
                b = b[np.isfinite(b)]
                if b.size:
                    s = max(s, b.max())
        return s
    s = big([p.x, whole, p.state], np.longdouble(p.amp))
    k = {"backlash_sum": 1}.get(p.fn, len(p.par) if p.fn.startswith("sos") else 0)
    return big(p.par[k:], s) * big(p.par[:k], np.longdouble(1))


def diff(p, got, want, scale, what, hist):
    a, b = np.asarray(got, np.longdouble), np.asarray(want, np.longdouble)
    if a.shape != b.shape:
        return "shape", f"{what}: {a.shape} instead of {b.shape}"
    with np.errstate(all="ignore"):
        fin = np.isfinite(b)
        bad = fin != np.isfinite(a)
        if p.case["nan"] == 0 and not p.case["wild"]:
            bad |= fin & ~(np.abs(a - b) <= TOL[p.case["t"]] * scale)
        else:
            # with overflow near, only exactly equal arithmetic is comparable
            bad |= fin & ~((a == b) | (np.abs(a - b) <= TOL[p.case["t"]] * scale))
    if bad.any():
        i = tuple(int(q[0]) for q in np.nonzero(bad))
        return what.split()[0], f"{what} differs at {i}: {a[i]!r}, expected {b[i]!r} ({int(bad.sum())} of {bad.size})"
    return None


def channels(p, whole, wstate, scale):
    """Each channel alone gives its part of the whole."""
    if not p.ch or 0 in p.ch:
        return None
    save = p.par, p.ch
    idx = [tuple(int(z) for z in np.unravel_index(k, p.ch)) for k in
           range(min(4, int(np.prod(p.ch))))]
    try:
        for i in idx:
            par = []
            for k, a in enumerate(save[0]):
                core = {"sosfilter": 2}.get(p.fn, 2 if p.fn.startswith("sos") else 1 if p.fn == "backlash_sum" else 0)
                par.append(a[i] if a.ndim > core else a)
            p.par = par
            y, s = p.call(p.x[i], None if p.state is None else p.state[i])
            e = diff(p, y, whole[i], scale, f"output of channel {i} alone", [])
            if not e and s is not None and wstate is not None:
                e = diff(p, s, wstate[i], scale, f"state of channel {i} alone", [])
            if e:
                return "channel-" + e[0], e[1]
    finally:
        p.par, p.ch = save
    return None


def failing(p, state, b, pos):
    """A call that must be rejected and leave the state as it is."""
    if state is None:
        return None
    before = state.copy()
    x = p.x[..., pos:pos + 2].copy()
    fn = {"sosmix": "sosfilter_ic", "sosrest": "sosfilter_ic"}.get(p.fn, p.fn)
    f = getattr(p.ul, fn)
    par = p.par
    args = {"sosfilter_ic": lambda: [par[0], x, state], "sosfilter_ic_contig": lambda: [par[0], x, state],
            "backlash": lambda: [x, par[0], state], "backlash_sum": lambda: [x, par[0], par[1], state],
            "hysteresis_relay": lambda: [x, *par, state], "unwrap": lambda: [x, par[0]]}[fn]()
    two = f.nout == 2
    y = np.empty(p.ch + (x.shape[-1] + 1,), p.dt)
    try:
        if b == 0:
            f(*args, out=(y, state) if two else (y,))
        elif b == 1:
            f(*args[:-1])
        elif b == 2:
            f(*args[:-1], "x")
        else:
            f(*args, out=(y, state, y))
        return "a call with wrong arguments was accepted"
    except (ValueError, TypeError):
        pass
    if not np.array_equal(before, state, equal_nan=True):
        return "a rejected call changed the state"
    return None


def shrinks(case):
    ev = case["ev"]
    n = len(ev)
    k = max(1, n // 2)
    while n and k >= 1:
        for i in range(0, n, k):
            yield dict(case, ev=ev[:i] + ev[i + k:])
        if k == 1:
            break
        k //= 2
    if case["ch"]:
        yield dict(case, ch=[])
        yield dict(case, ch=case["ch"][1:])
    for q in (1, 2, case["n"] // 2):
        if q < case["n"]:
            yield dict(case, n=q)
    for q in (1, 2):
        if q < case["m"]:
            yield dict(case, m=q)
    for k in ("nan", "wild", "sh", "amp", "quiet"):
        if case[k]:
            yield dict(case, **{k: 0})
    for i, e in enumerate(ev):
        if e["do"] == "piece":
            if e["mode"] != "new":
                yield dict(case, ev=ev[:i] + [dict(e, mode="new")] + ev[i + 1:])
            if e["lay"]:
                yield dict(case, ev=ev[:i] + [dict(e, lay=0)] + ev[i + 1:])
            if e["n"] > 1:
                yield dict(case, ev=ev[:i] + [dict(e, n=1)] + ev[i + 1:])
    if case["t"] != "d":
        yield dict(case, t="d")
    if case["tail"] != 1:
        yield dict(case, tail=1)
