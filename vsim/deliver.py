"""Delivery simulation: how the elements of one logical call reach the inner loops.

A plan (JSON) fixes the logical operands and everything NumPy, the memory layout and the
caller's keywords would otherwise decide: chunk boundaries and their order, strides, byte
order, alignment, casting, buffer size, masks, aliasing and the position of core axes.
"""

import hashlib
import math

import numpy as np

try:
    import _simext as X
except ImportError:      # the parent process, which executes nothing
    X = None

from . import reg

POISON = [0x00, 0xFF, 0x7F, 0xA5, 0x01]


def prod(t):
    p = 1
    for x in t:
        p *= x
    return p


def core_shape(f, k, core):
    return tuple(int(d) if d.isdigit() else core[d] for d in f.core[k])


def logical_inputs(f, plan):
    d = reg.Draw(plan["dseed"], plan.get("special", 0.0), plan["core"])
    tin, _ = f.loop_types(plan["loop"])
    outer = tuple(plan["outer"])
    ins = []
    for k in range(f.nin):
        keep = plan["bc"][k]     # per outer dim: 1 full, 0 broadcast
        shp = tuple(n if q else 1 for n, q in zip(outer, keep))
        ins.append(d.make(f.kinds[k], tin[k], shp + core_shape(f, k, plan["core"])))
    hw = plan.get("hw")
    if hw:
        from . import mem
        ins = [mem.wild(a, hw[k], plan["dseed"] + 13 * k, plan["core"]) for k, a in enumerate(ins)]
    if plan.get("tr"):
        from . import mem
        ins = [mem.related(a, plan["tr"], plan["dseed"] + 5 * k) if plan["wm"][k] else a for k, a in enumerate(ins)]
    return shared_values(f, plan, ins)


def share(rng, f, plan):
    """Operands whose elements share memory: zero strides along core axes, sliding windows,
    and one array passed as several inputs."""
    tin, _ = f.loop_types(plan["loop"])
    avoid = plan["alias"][0] if plan.get("alias") else -1
    if f.contig:
        return plan
    q = rng.random()
    if q < .1:
        zero = {}
        for k in range(f.nin):
            if k != avoid and f.core[k] and rng.random() < .6:
                z = [int(rng.random() < .7) for _ in f.core[k]]
                if any(z):
                    zero[str(k)] = z
        if zero:
            plan["zero"] = zero
            if rng.random() < .3:
                plan["lay"] = [{} if rng.random() < .7 else l for l in plan["lay"]]
                if not plan["raw"] and "n" in plan["core"] and "O" not in f.types[plan["loop"]] and prod(plan["outer"]) < 7:
                    plan["core"]["n"] = max(plan["core"]["n"], int(20 * 15 ** rng.random()))
    elif q < .15:
        nd = len(plan["outer"])
        cand = [k for k in range(f.nin) if k != avoid and len(f.core[k]) == 1 and nd and plan["bc"][k][-1]
                and tin[k] != "O" and plan["outer"][-1] and core_shape(f, k, plan["core"])[0]]
        if cand:
            plan["win"] = rng.choice(cand)
    elif q < .23:
        pairs = [(j, k) for k in range(f.nin) for j in range(k) if tin[j] == tin[k] and f.core[j] == f.core[k]
                 and avoid not in (j, k)]
        if pairs:
            j, k = rng.choice(pairs)
            plan["same"] = [j, k]
            plan["bc"][k] = list(plan["bc"][j])
            if plan.get("cast"):
                plan["cast"][k] = plan["cast"][j]
            if not all(any(b[i] for b in plan["bc"]) for i in range(len(plan["outer"]))):
                plan["bc"][k] = [1] * len(plan["outer"])
                plan["bc"][j] = [1] * len(plan["outer"])
    return plan


def shared_values(f, plan, ins):
    """The values that operands with shared memory can have."""
    for k, z in plan.get("zero", {}).items():
        k = int(k)
        a = ins[k].copy()
        for i, q in enumerate(z):
            ax = a.ndim - len(z) + i
            if q and a.shape[ax]:
                a[...] = np.take(a, [0], ax)
        ins[k] = a
    if plan.get("win") is not None:
        k = plan["win"]
        if ins[k].size:
            ins[k] = window(unwindow(ins[k]), ins[k].shape[-1]).copy()
    if plan.get("same"):
        j, k = plan["same"]
        ins[k] = ins[j]
    return ins


def unwindow(a):
    return np.concatenate([a[..., 0, :], a[..., 1:, -1]], -1)


def window(a, n):
    return np.lib.stride_tricks.sliding_window_view(a, n, -1, writeable=True)


def place(plan, k, values, lay, poison):
    """The Layout of input k."""
    if plan.get("win") == k and values.ndim > 1 and values.size:
        lo = Layout(unwindow(values), lay, poison)
        lo.view = window(lo.view, values.shape[-1])
        return lo
    z = plan.get("zero", {}).get(str(k))
    if z and values.size:
        full = values.shape
        v = values
        for i, q in enumerate(z):
            if q:
                v = np.take(v, [0], v.ndim - len(z) + i)
        lo = Layout(v, lay, poison)
        st = [0 if i >= len(full) - len(z) and z[i - len(full) + len(z)] else s for i, s in enumerate(lo.view.strides)]
        lo.view = np.lib.stride_tricks.as_strided(lo.view, full, st)
        return lo
    return Layout(values, lay, poison)


def out_init(f, plan, k, shape, dtype):
    """Initial contents of output k: for in/out operands small counts, else poison."""
    n = prod(shape)
    if dtype == object:
        a = np.empty(n, object)
        a[:] = [None] * n
        return a.reshape(shape)
    if f.inout:
        r = np.random.Generator(np.random.PCG64(plan["dseed"] + 77))
        return np.asarray(r.integers(0, 5, shape), dtype=dtype)
    b = np.empty(n * dtype.itemsize, np.uint8)
    b[:] = plan.get("poison", 0xFF)
    if dtype.char == "?":
        b[:] = 1
    return b.view(dtype).reshape(shape)


def reference(f, plan, ins):
    """One slice per inner-loop call, on private contiguous memory."""
    outer = tuple(plan["outer"])
    N = prod(outer)
    tin, tout = f.loop_types(plan["loop"])
    full = []
    steps = []
    for k in range(f.nin):
        cs = core_shape(f, k, plan["core"])
        a = np.ascontiguousarray(np.broadcast_to(ins[k], outer + cs)).reshape((N,) + cs)
        if a.base is not None and np.shares_memory(a, ins[k]):
            a = a.copy()
        full.append(a)
    outs = []
    for k in range(f.nout):
        cs = core_shape(f, f.nin + k, plan["core"])
        dt = np.dtype(tout[k])
        outs.append(out_init(f, plan, k, outer + cs, dt).reshape((N,) + cs))
    dims = (1,) + tuple(int(d) if d.isdigit() else plan["core"][d] for d in f.dims)
    cst = []
    for a in full + outs:
        cst += list(a.strides[1:])
        steps.append(a.strides[0])
    allst = tuple(steps) + tuple(cst)
    ptr = [a.ctypes.data for a in full + outs]
    gil = 0
    seq = list(range(N))
    if plan["dseed"] & 1:     # the slices are independent: their order is the simulator's choice
        seq.reverse()
    for i in seq:
        X.call_loop(f.uf, plan["loop"], tuple(p + i * s for p, s in zip(ptr, steps)), dims, allst, gil)
    return [o.reshape(outer + o.shape[1:]) for o in outs]


class Layout:
    """A view with prescribed values inside a larger poisoned buffer."""

    def __init__(self, values, lay, poison):
        dt = values.dtype
        self.obj = dt == object
        if lay.get("swap") and not self.obj:
            dt = dt.newbyteorder()
        shape = values.shape
        nd = len(shape)
        isz = dt.itemsize
        perm = [p for p in lay.get("perm", []) if p < nd]
        perm += [p for p in reversed(range(nd)) if p not in perm]
        gaps = lay.get("gap", [])
        negs = lay.get("neg", [])
        strides = [0] * nd
        s = isz
        start = 0
        for q, ax in enumerate(perm):
            g = gaps[q] if q < len(gaps) else 1
            st = s * g
            n = shape[ax]
            if q < len(negs) and negs[q]:
                start += st * max(0, n - 1)
                strides[ax] = -st
            else:
                strides[ax] = st
            s = st * max(1, n)
        pad = lay.get("pad", 2)
        off = 0 if self.obj else lay.get("unal", 0)
        total = s + 2 * pad * isz
        if self.obj:
            self.base = np.empty(total // isz + 1, object)
            self.base[:] = [None] * len(self.base)
            self.raw = self.base
        else:
            self.base = np.empty(total + 16, np.uint8)
            self.base[:] = poison
        self.view = np.ndarray(shape, dt, self.base.data if not self.obj else self.base,
                               offset=pad * isz + off + start, strides=strides) \
            if not self.obj else self._objview(shape, strides, pad, start, isz)
        if prod(shape):
            self.view[...] = values
        self.snap()

    def _objview(self, shape, strides, pad, start, isz):
        v = self.base[pad + start // isz:]
        return np.lib.stride_tricks.as_strided(v, shape, strides)

    def snap(self):
        self.before = self.base.copy()
        self.vbefore = self.view.copy()

    def outside_changed(self):
        """True if memory of the buffer outside the view changed since snap()."""
        if self.obj:
            now = self.base.copy()
            keep = self.view.copy()
            if prod(self.view.shape):
                self.view[...] = self.vbefore
            bad = any(x is not y for x, y in zip(self.base, self.before))
            self.base[:] = now
            del keep
            return bad
        now = self.base.copy()
        if prod(self.view.shape):
            self.view[...] = self.vbefore
        bad = not np.array_equal(self.base, self.before)
        self.base[:] = now
        return bad

    def changed(self):
        if self.obj:
            return any(x is not y for x, y in zip(self.base, self.before))
        return not np.array_equal(self.base, self.before)


def rand_layout(rng, nd, obj=False, plain=0.25):
    if rng.random() < plain:
        return {}
    lay = {"perm": rng.sample(range(nd), nd),
           "gap": [rng.choice([1, 1, 2, 3]) for _ in range(nd)],
           "neg": [int(rng.random() < .3) for _ in range(nd)],
           "pad": rng.choice([0, 1, 2, 5])}
    if not obj:
        if rng.random() < .15:
            lay["swap"] = 1
        if rng.random() < .15:
            lay["unal"] = rng.choice([1, 3, 4, 7])
    return lay


def gen_plan(rng, f, loops=None, big=0.12, raw=None):
    """A random delivery plan for function f."""
    loops = loops if loops is not None else range(len(f.types))
    loop = rng.choice(list(loops))
    ops = f.types[loop].replace("->", "")
    obj = "O" in ops
    core = {}
    huge = 0
    for d in f.dims:
        if d.isdigit():
            continue
        n = rng.choice([1, 2, 3, 4, 5, 7, 8, 9])
        if rng.random() < big:
            n = rng.choice([13, 16, 17, 31, 33, 64, 65, 100, rng.randrange(10, 120)])
            if rng.random() < .25 and not huge:
                n = rng.choice([127, 128, 130, 200, 255, 257, 300, 513, 1000, 1025, 2049] if rng.random() < .4 else
                               [int(120 * 17 ** rng.random())])
                huge = 1
        if f.base in reg.ZERO_OK and rng.random() < .04:
            n = 0
        core[d] = max(n, reg.MIN_N.get(f.base, 0))
    if obj:
        core = {k: min(v, 9) for k, v in core.items()}
    if f.base.startswith("sosfilter") and "m" in core:
        core["m"] = rng.choice([1, 2, 3, 5])
    if f.base == "convert_to_base":
        core["n"] = rng.choice([1, 2, 3, 5])
    if f.base == "one_hot" or f.base.startswith("nextn"):
        core["n"] = max(1, core.get("n", 1))
    raw = (rng.random() < .35) if raw is None else raw
    nd = 1 if raw else rng.choice([0, 1, 1, 2, 2, 3])
    lim = 200 if not f.gufunc else 5 if huge and max(core.values()) > 100 else 40
    outer = []
    for _ in range(nd):
        outer.append(rng.choice([1, 2, 3, 4, 5, 6, 7, 8]))
    if nd and rng.random() < .4:
        outer[rng.randrange(nd)] = rng.choice([9, 15, 16, 17, 31, 33, 40, 64, 100, 129, 200, 520, rng.randrange(9, 600)])
    most = 600
    if nd and not f.gufunc and rng.random() < big / 6:
        outer[rng.randrange(nd)] = rng.choice([1000, 1024, 1025, 2048, 4100, 8191, 8200, rng.randrange(600, 8300), rng.randrange(600, 8300)])
        most = 9000
    while prod(outer) > (most if not f.gufunc else lim):
        j = max(range(nd), key=lambda q: outer[q])
        outer[j] = max(1, outer[j] // 2)
    if nd and rng.random() < .02:
        outer[rng.randrange(nd)] = 0
    bc = []
    for k in range(f.nin):
        bc.append([int(rng.random() > (.25 if f.nin > 1 else 0)) for _ in outer])
    if f.nin and nd:
        for j in range(nd):   # every outer dim is carried by some input
            if not any(b[j] for b in bc):
                bc[rng.randrange(f.nin)][j] = 1
    plan = {"f": f.name, "loop": loop, "dseed": rng.randrange(1 << 40), "outer": outer,
            "core": core, "bc": bc, "special": rng.choice([0, 0, .05, .2]),
            "poison": rng.choice(POISON), "raw": int(raw)}
    nop = f.nin + f.nout
    plan["lay"] = []
    for k in range(nop):
        nk = nd + len(f.core[k])
        plan["lay"].append({} if f.contig else rand_layout(rng, nk, ops[k] == "O"))
    if raw:
        for lay in plan["lay"]:
            lay.pop("swap", None)
            lay.pop("unal", None)
        N = prod(outer)
        cuts = sorted(rng.sample(range(1, N), min(N - 1, rng.choice([0, 1, 2, 5, 20])))) if N > 1 else []
        b = [0] + cuts + [N]
        chunks = [[b[i], b[i + 1]] for i in range(len(b) - 1)]
        mode = rng.choice(["fwd", "rev", "shuf"])
        if mode == "rev":
            chunks.reverse()
        elif mode == "shuf":
            rng.shuffle(chunks)
        plan["chunks"] = chunks
        plan["nogil"] = int(not obj and rng.random() < .5)
    else:
        plan["buf"] = rng.choice([16, 32, 64, 8192])
        need_out = bool(f.out_dims()) or f.inout
        plan["out"] = int(need_out or rng.random() < .55)
        if not f.contig:
            if f.gufunc:
                if rng.random() < .4:
                    plan["axes"] = [[rng.randrange(0, 8) for _ in c] for c in f.core]
            elif nd and rng.random() < .2:
                plan["where"] = rng.choice([.1, .5, .9])
                plan["out"] = 1
            if rng.random() < .2:
                plan["order"] = rng.choice("CFKA")
            tin, tout = f.loop_types(loop)
            if rng.random() < .18 and nd and not f.inout:
                # out shares memory with an input of the same type and full shape
                cand = [k for k in range(f.nin) if tin[k] == tout[0] and f.core[k] == f.core[f.nin]
                        and all(bc[k]) and tin[k] != "O"]
                if cand:
                    plan["alias"] = [rng.choice(cand), rng.choice([0, 0, 1, 2, -1])]
                    plan["out"] = 1
            if rng.random() < .12 and "alias" not in plan:
                # an input arrives in a narrower type that casts safely
                plan["cast"] = [int(rng.random() < .6) for _ in range(f.nin)]
    return plan


NARROW = {"d": "f", "g": "d", "f": "h", "l": "i", "i": "h", "h": "b", "L": "I", "I": "H",
          "D": "F", "G": "D", "F": "f"}


class Exec:
    """The outcome of one delivered call."""

    def __init__(self):
        self.outs = []
        self.viol = None
        self.exc = None
        self.flags = 0      # of loops that were called directly


def nan_eq(a, b):
    if a.dtype == object:
        return all(x is y or x == y or (x != x and y != y) for x, y in zip(a.ravel(), b.ravel()))
    if a.dtype.kind in "fc":
        with np.errstate(all="ignore"):
            return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))
    return bool(np.array_equal(a, b))


def same_zeros(a, b):
    """Zeros have the same signs."""
    if a.dtype.kind != "f" or b.dtype.kind != "f":
        return True
    return bool(np.all((a != 0) | (np.signbit(a) == np.signbit(b))))


TOL = {"e": 1e-2, "f": 2e-4, "d": 1e-11, "g": 1e-12}


def close(a, b, scale=1.0):
    """Equal up to rounding of a reordered computation."""
    if a.shape != b.shape:
        return False
    if a.dtype.kind not in "fc" or b.dtype.kind not in "fc":
        return nan_eq(a, b)
    if a.dtype.kind == "c":
        return close(a.real, b.real, scale) and close(a.imag, b.imag, scale)
    with np.errstate(all="ignore"):
        t = TOL.get(a.dtype.char, 1e-11)
        same = (a == b) | (np.isnan(a) & np.isnan(b))
        fin = np.isfinite(a) & np.isfinite(b)
        near = fin & (np.abs(np.where(fin, a, 0) - np.where(fin, b, 0))
                      <= t * (np.abs(np.where(fin, b, 0)) + scale))
        return bool(np.all(same | near))


def native(a):
    return a.astype(a.dtype.newbyteorder("=")) if a.dtype != object else a.copy()


def digest(arrs):
    h = hashlib.sha256()
    for a in arrs:
        if a.dtype == object:
            h.update(repr([(type(x).__name__, repr(x)) for x in a.ravel()]).encode())
        else:
            if a.dtype.kind in "fc":
                a = a + 0 if a.size else a
                if a.dtype.itemsize in (16, 32) and a.dtype.char in "gG":
                    h.update(repr(a.tolist()).encode())
                    continue
                with np.errstate(all="ignore"):
                    a = np.where(np.isnan(a), np.nan, a)
            h.update(str(a.dtype).encode() + str(a.shape).encode() + np.ascontiguousarray(a).tobytes())
    return h.hexdigest()[:16]


def execute(f, plan, ins, api=None):
    """Delivers the call as the plan says.  Returns Exec; outs in logical order and native type."""
    ex = Exec()
    outer = tuple(plan["outer"])
    tin, tout = f.loop_types(plan["loop"])
    nin, nout = f.nin, f.nout
    poison = plan["poison"]
    lays = plan["lay"]
    if plan["raw"]:
        N = prod(outer)
        L = [place(plan, k, ins[k], lays[k], poison) for k in range(nin)]
        if plan.get("same"):
            L[plan["same"][1]] = L[plan["same"][0]]
        LO = []
        for k in range(nout):
            cs = core_shape(f, nin + k, plan["core"])
            LO.append(Layout(out_init(f, plan, k, outer + cs, np.dtype(tout[k])), lays[nin + k], poison))
        views = [l.view for l in L + LO]
        steps = []
        cst = []
        for v in views:
            steps.append(v.strides[0] if v.shape[0] == N and N != 1 else 0)
            cst += list(v.strides[1:])
        dims = tuple(int(d) if d.isdigit() else plan["core"][d] for d in f.dims)
        ptr = [v.__array_interface__["data"][0] for v in views]
        for lo, hi in plan["chunks"]:
            if hi <= lo:
                continue
            ex.flags |= X.call_loop(f.uf, plan["loop"], tuple(p + lo * s for p, s in zip(ptr, steps)),
                        (hi - lo,) + dims, tuple(steps) + tuple(cst), plan["nogil"])
        for k, l in enumerate(L):
            if l.changed():
                ex.viol = ("input-modified", f"input {k} was modified")
        for k, l in enumerate(LO):
            if l.outside_changed():
                ex.viol = ("stray-write", f"memory outside output {k} was modified")
        ex.outs = [native(l.view) for l in LO]
        return ex

    # through NumPy
    axes = None
    if plan.get("axes"):
        axes = []
        for k in range(nin + nout):
            nd = len(outer) + len(f.core[k])
            nc = len(f.core[k])
            pos = []
            for want in plan["axes"][k][:nc]:
                p = want % nd
                while p in pos:
                    p = (p + 1) % nd
                pos.append(p)
            axes.append(tuple(pos))
    views = []
    L = []
    alias = plan.get("alias")
    alias_out = None
    for k in range(nin):
        v = ins[k]
        if plan.get("same") and plan["same"][1] == k:
            L.append(None)
            views.append(views[plan["same"][0]])
            continue
        if plan.get("cast") and plan["cast"][k] and v.dtype.char in NARROW:
            t = NARROW[v.dtype.char]
            with np.errstate(all="ignore"):
                nv = v.astype(t)
                if nan_eq(nv.astype(v.dtype), v) and same_zeros(nv.astype(v.dtype), v) and np.can_cast(t, v.dtype):
                    v = nv
        if alias and alias[0] == k:
            s = abs(alias[1])
            nd = v.ndim
            if nd == 0:
                s = 0
            buf = np.empty(v.shape[:-1] + (v.shape[-1] + s,) if nd else (), v.dtype)
            bb = buf.reshape(-1).view(np.uint8)
            bb[:] = poison
            a, b = (slice(0, v.shape[-1]), slice(s, None)) if nd else ((), ())
            if alias[1] < 0:
                a, b = b, a
            iv = buf[..., a] if nd else buf
            alias_out = buf[..., b] if nd else buf
            iv[...] = v
            L.append(None)
            views.append(iv)
        else:
            # drop leading broadcast dimensions some of the time
            lay = place(plan, k, v, lays[k], poison)
            L.append(lay)
            views.append(lay.view)
    kw = {}
    LO = []
    if plan["out"]:
        outs = []
        for k in range(nout):
            cs = core_shape(f, nin + k, plan["core"])
            if alias_out is not None and k == 0:
                LO.append(None)
                outs.append(alias_out)
                continue
            lo = Layout(out_init(f, plan, k, outer + cs, np.dtype(tout[k])), lays[nin + k], poison)
            LO.append(lo)
            outs.append(lo.view)
    if axes is not None:
        nc = [len(c) for c in f.core]
        views = [np.moveaxis(v, tuple(range(v.ndim - nc[k], v.ndim)), axes[k]) if nc[k] else v
                 for k, v in enumerate(views)]
        if plan["out"]:
            outs = [np.moveaxis(v, tuple(range(v.ndim - nc[nin + k], v.ndim)), axes[nin + k])
                    if nc[nin + k] else v for k, v in enumerate(outs)]
        kw["axes"] = [tuple(a) for a in axes]
    if plan["out"]:
        kw["out"] = tuple(outs)
    if plan.get("order"):
        kw["order"] = plan["order"]
    mask = None
    if plan.get("where"):
        r = np.random.Generator(np.random.PCG64(plan["dseed"] + 5))
        mask = r.random(outer) < plan["where"]
        kw["where"] = mask
    kw["signature"] = f.types[plan["loop"]]
    old = np.getbufsize()
    np.setbufsize(plan["buf"])
    try:
        res = (api or f.uf)(*views, **kw)
    finally:
        np.setbufsize(old)
    if not isinstance(res, tuple):
        res = (res,)
    res = [r if isinstance(r, np.ndarray) else np.asarray(r, dtype=(object if t == "O" else None))
           for r, t in zip(res, tout)]
    for k, l in enumerate(L):
        if l is not None and l.changed():
            ex.viol = ("input-modified", f"input {k} was modified")
    if plan["out"]:
        for k, l in enumerate(LO):
            if l is not None and l.outside_changed():
                ex.viol = ("stray-write", f"memory outside output {k} was modified")
            if res[k] is not outs[k] and not (np.shares_memory(res[k], outs[k])):
                ex.viol = ("out-not-returned", f"the returned array is not out[{k}]")
    if axes is not None:
        nc = [len(c) for c in f.core]
        res = [np.moveaxis(v, axes[nin + k], tuple(range(v.ndim - nc[nin + k], v.ndim)))
               if nc[nin + k] else v for k, v in enumerate(res)]
    ex.outs = [native(r) for r in res]
    ex.mask = mask
    if mask is not None:
        ex.outs_before = [LO[k].vbefore.astype(LO[k].vbefore.dtype.newbyteorder("="))
                          if LO[k] is not None else native(np.asarray(ins[alias[0]]))
                          if alias[1] == 0 else None for k in range(nout)]
    return ex


def compare(f, plan, ref, ex, exact=None):
    """None, or (kind, detail)."""
    exact = (not f.gufunc) if exact is None else exact
    mask = getattr(ex, "mask", None)
    for k, (a, b) in enumerate(zip(ex.outs, ref)):
        if a.shape != b.shape:
            return ("shape", f"output {k}: shape {a.shape}, expected {b.shape}")
        if a.dtype != b.dtype:
            return ("dtype", f"output {k}: dtype {a.dtype}, expected {b.dtype}")
        if mask is not None:
            before = ex.outs_before[k]
            if before is None:
                a, b = a[mask], b[mask]
            else:
                b = np.where(mask, b, before)
        ok = nan_eq(a, b) and same_zeros(a, b) if exact else close(a, b)
        if not ok:
            idx = first_diff(a, b, exact)
            return ("value", f"output {k} differs at {idx}: got {a[idx]!r}, expected {b[idx]!r}")
    return None


def first_diff(a, b, exact):
    for i in np.ndindex(*a.shape):
        x, y = a[i:i + 1] if False else np.asarray(a[i]), np.asarray(b[i])
        if not (nan_eq(x, y) and same_zeros(x, y) if exact else close(x, y)):
            return i
    return (0,) * a.ndim


def shrink_plan(p):
    """Simpler plans."""
    import copy

    def mod(**kw):
        q = copy.deepcopy(p)
        for k, v in kw.items():
            if v is None:
                q.pop(k, None)
            else:
                q[k] = v
        return q

    for k in ("axes", "alias", "cast", "where", "order", "zero", "win", "same"):
        if p.get(k) is not None:
            yield mod(**{k: None})
    if p.get("buf", 8192) != 8192:
        yield mod(buf=8192)
    if p.get("hw"):
        yield mod(hw=None)
        for k, x in enumerate(p["hw"]):
            if x:
                yield mod(hw=[0 if i == k else y for i, y in enumerate(p["hw"])])
    if p.get("tr"):
        yield mod(tr=None)
    if p.get("special"):
        yield mod(special=0)
    for i, lay in enumerate(p["lay"]):
        if lay:
            l2 = copy.deepcopy(p["lay"])
            l2[i] = {}
            yield mod(lay=l2)
            for k in list(lay):
                l2 = copy.deepcopy(p["lay"])
                l2[i].pop(k)
                yield mod(lay=l2)
    if p["raw"]:
        N = prod(p["outer"])
        if len(p["chunks"]) > 1:
            yield mod(chunks=[[0, N]])
            srt = sorted(p["chunks"])
            if srt != p["chunks"]:
                yield mod(chunks=srt)
            for i in range(len(srt) - 1):
                yield mod(chunks=srt[:i] + [[srt[i][0], srt[i + 1][1]]] + srt[i + 2:])
        if N > 1:
            for m in (1, 2, N // 2, N - 1):
                if 1 <= m < N:
                    yield mod(outer=[m], chunks=[[a, min(b, m)] for a, b in p["chunks"] if a < m])
    else:
        for i, n in enumerate(p["outer"]):
            for m in (1, 2, n // 2, n - 1):
                if 1 <= m < n:
                    yield mod(outer=p["outer"][:i] + [m] + p["outer"][i + 1:])
        if p["outer"]:
            for i in range(len(p["outer"])):
                q = mod(outer=p["outer"][:i] + p["outer"][i + 1:])
                q["bc"] = [b[:i] + b[i + 1:] for b in q["bc"]]
                yield q
    for d, n in p["core"].items():
        for m in (1, 2, 3, n // 2, n - 1):
            if 1 <= m < n:
                c = dict(p["core"])
                c[d] = m
                yield mod(core=c)
    for b in range(len(p["bc"])):
        for j in range(len(p["bc"][b])):
            if not p["bc"][b][j]:
                bc = copy.deepcopy(p["bc"])
                bc[b][j] = 1
                yield mod(bc=bc)


def features(plan):
    """Probes and faults of a plan, for the evidence."""
    st = {}

    def inc(k, n=1):
        st[k] = st.get(k, 0) + n
    if plan["raw"]:
        inc("fault:chunk_boundary", max(0, len(plan["chunks"]) - 1))
        if plan["chunks"] != sorted(plan["chunks"]):
            inc("fault:chunk_reorder")
        inc("steps", len(plan["chunks"]))
    else:
        inc("steps")
        if plan["buf"] < 8192:
            inc("fault:small_buffer")
        for k in ("axes", "alias", "cast", "where"):
            if plan.get(k):
                inc("fault:" + k)
    for lay in plan["lay"]:
        if lay.get("swap"):
            inc("fault:byteswap")
        if lay.get("unal"):
            inc("fault:misalign")
        if any(lay.get("neg", [])):
            inc("fault:negative_stride")
        if any(g > 1 for g in lay.get("gap", [])):
            inc("fault:gapped_stride")
    for k in ("zero", "win", "same"):
        if plan.get(k) is not None:
            inc("fault:shared_memory_" + k)
    if any(0 in b for b in plan["bc"]):
        inc("fault:broadcast_stride0")
    return st


def signature(plan, extra=""):
    """What makes a delivery distinct: function, loop, operand stride pattern, chunking."""
    s = [plan["f"], plan["loop"], plan["raw"], tuple(plan["outer"]), sorted(plan["core"].items()),
         plan["bc"], plan["lay"], plan.get("chunks"), plan.get("buf"), plan.get("axes"),
         plan.get("alias"), plan.get("cast"), plan.get("where"), extra] + \
        [plan.get(k) for k in ("zero", "win", "same") if plan.get(k) is not None]
    return hashlib.sha256(repr(s).encode()).hexdigest()[:16]
