"""Discovers the ufuncs of the installed package and knows how to make operands for them."""

import importlib
import pkgutil
import re

import numpy as np

FLOAT = "efdg"
CPLX = "FDG"
INTS = "bBhHiIlLqQ"

# Operand kinds per input, for functions whose inputs are not just "any number".
KINDS = {
    "all_same": ["few"],
    "argfirst": ["few", "op", "few1"],
    "first": ["few", "op", "few1", "few1"],
    "argmax": ["few"], "argmin": ["few"], "argminmax": ["few"], "minmax": ["few"],
    "max_argmax": ["few"], "min_argmin": ["few"], "peaktopeak": ["pp"],
    "backlash": ["real", "nonneg", "real"],
    "backlash_sum": ["real", "real", "nonneg", "real"],
    "bincount": ["bin"], "bincountw": ["bin", "real"],
    "convert_to_base": ["k", "base"],
    "one_hot": ["bin"],
    "cross2": ["small", "small"], "cross3": ["small", "small"],
    "fillnan1d": ["nanny"],
    "gini": ["nonneg", "bool"], "mad": ["real", "bool"], "rmad": ["real", "bool"],
    "gmean": ["pos"], "gmeanw": ["pos", "nonneg"], "hmean": ["pos"], "hmeanw": ["pos", "nonneg"],
    "pmean": ["pos", "p"], "pmeanw": ["pos", "nonneg", "p"],
    "meanvar": ["small", "ddof"],
    "hysteresis_relay": ["real", "low", "high", "real", "real", "real"],
    "kbnsum": ["real"],
    "linear_interp1d": ["real", "sorted", "real"],
    "multivariate_logbeta": ["pos"],
    "ordered": ["fewsorted", "op"],
    "pearson_corr": ["small", "small"],
    "percentileofscore": ["few", "few1", "pkind"],
    "rms": ["real"],
    "searchsortedl": ["sorted", "few1"], "searchsortedr": ["sorted", "few1"],
    "softmax": ["real"],
    "sosfilter": ["sos", "real"], "sosfilter_ic": ["sos", "real", "real"],
    "sosfilter_ic_contig": ["sos", "real", "real"],
    "tri_area": ["real"], "tri_area_indexed": ["real", "tidx"],
    "unwrap": ["real", "period"],
    "vdot": ["real", "real"], "vnorm": ["real", "vp"],
    "wjaccard": ["nonneg", "nonneg"],
    "logfactorial": ["k"],
}
# Outputs whose previous contents are an operand.
INOUT = {"bincount", "bincountw"}
# Documented to require contiguous arguments.
CONTIG_ONLY = {"sosfilter_ic_contig"}
# Core dimensions that may be zero.
ZERO_OK = {"all_same", "argfirst", "first", "ordered", "softmax", "fillnan1d",
           "hysteresis_relay", "backlash", "unwrap", "searchsortedl", "searchsortedr", "kbnsum",
           "vdot", "vnorm", "sosfilter", "sosfilter_ic"}
MIN_N = {"pearson_corr": 2, "meanvar": 1}


class Func:
    def __init__(self, name, uf):
        self.name = name
        self.uf = uf
        self.nin, self.nout = uf.nin, uf.nout
        self.types = [t.replace(" ", "") for t in uf.types]
        sig = (uf.signature or "").replace(" ", "")
        self.gufunc = bool(sig)
        if sig:
            a, b = sig.split("->")
            ops = re.findall(r"\(([^)]*)\)", a) + re.findall(r"\(([^)]*)\)", b)
            self.core = [tuple(x for x in o.split(",") if x) for o in ops]
        else:
            self.core = [()] * (self.nin + self.nout)
        self.dims = []       # core dimensions in NumPy's order
        for o in self.core:
            for d in o:
                if d not in self.dims:
                    self.dims.append(d)
        base = name.rsplit(".", 1)[-1]
        self.base = base
        k = KINDS.get(base)
        self.kinds = k if k and len(k) == self.nin else ["real"] * self.nin
        self.inout = base in INOUT and self.gufunc
        self.contig = base in CONTIG_ONLY

    def loop_types(self, i):
        a, b = self.types[i].split("->")
        return list(a), list(b)

    def out_dims(self):
        """core dimensions that only outputs have"""
        ins = {d for o in self.core[:self.nin] for d in o}
        return [d for o in self.core[self.nin:] for d in o if d not in ins and not d.isdigit()]


def discover():
    import ufunclab
    out = {}
    seen = {}

    def add(name, o):
        if isinstance(o, np.ufunc) and id(o) not in seen:
            seen[id(o)] = name
            out[name] = Func(name, o)

    for n in sorted(dir(ufunclab)):
        if n.startswith("__"):
            continue
        o = getattr(ufunclab, n)
        add(n, o)
        if n in ("normal", "semivar"):
            for m in sorted(dir(o)):
                add(f"{n}.{m}", getattr(o, m))
    for mi in sorted(pkgutil.iter_modules(ufunclab.__path__), key=lambda m: m.name):
        if mi.ispkg or mi.name == "tests":
            continue
        m = importlib.import_module("ufunclab." + mi.name)
        for n in sorted(dir(m)):
            o = getattr(m, n)
            if isinstance(o, np.ufunc) and (getattr(o, "__name__", "") == n):
                add(n if n not in out else f"{mi.name}.{n}", o)
    return out


_CACHE = {}


def cached():
    if not _CACHE:
        _CACHE.update(discover())
    return _CACHE


class Draw:
    """Operand values, from one numpy Generator."""

    def __init__(self, seed, special=0.0, core=None):
        self.r = np.random.Generator(np.random.PCG64(seed))
        self.special = special
        self.core = core or {}

    def _real(self, shape, tc):
        r = self.r
        kind = r.integers(0, 4)
        if kind == 0:
            v = r.integers(-8, 9, shape) / 2
        elif kind == 1:
            v = r.normal(0, 3, shape)
        elif kind == 2:
            v = r.normal(0, 1, shape) * 10.0 ** r.integers(-3, 4, shape)
        else:
            v = r.integers(-3, 4, shape).astype(float)
        v = np.asarray(v, dtype=np.longdouble if tc in "gG" else float)
        if self.special and tc in FLOAT + CPLX:
            m = r.random(shape) < self.special
            pool = np.array([np.nan, np.inf, -np.inf, -0.0, 0.0, 1.0, -1.0, 1e-30, 1e30])
            v = np.where(m, pool[r.integers(0, len(pool), shape)], v)
        return v

    def make(self, kind, tc, shape):
        v = self._make(kind, tc, shape)
        if tc != "O" and kind not in ("sos", "sorted") and v.ndim and v.shape[-1] > 1 and self.r.random() < .12:
            # ties: constant rows, repeated pairs, rows equal to their neighbours
            v = np.array(v)
            q = self.r.integers(0, 4)
            if q == 0:
                m = self.r.random(v.shape[:-1]) < .5
                v[m] = v[..., :1][m]
            elif q == 1:
                n = v.shape[-1] // 2
                v[..., 1:2*n:2] = v[..., 0:2*n:2]
            elif q == 2:
                v[..., -1] = v[..., 0]
            elif v.ndim > 1:
                v[1:] = v[:1]
        return v

    def _make(self, kind, tc, shape):
        r = self.r
        shape = tuple(shape)
        if tc == "O":
            if kind == "small":
                v = r.integers(-5, 6, shape)
            else:
                v = r.integers(-4, 5, shape)
            if kind in ("sorted", "fewsorted"):
                v = np.sort(v, axis=-1)
            o = np.empty(shape, object)
            for i in np.ndindex(*shape):
                o[i] = float(v[i]) if r.random() < 0.3 else int(v[i])
            return o
        dt = np.dtype(tc)
        if tc == "?" or kind == "bool":
            return r.integers(0, 2, shape).astype(dt)
        if kind == "op":
            return r.integers(0, 6, shape).astype(dt)
        if kind == "pkind":
            return r.integers(0, 4, shape).astype(dt)
        if kind == "ddof":
            return r.integers(0, 2, shape).astype(dt)
        if kind == "tidx":
            return r.integers(0, max(1, self.core.get("m", 3)), shape).astype(dt)
        if kind == "bin":
            lo = -2 if tc not in "BHILQ" else 0
            return r.integers(lo, max(2, self.core.get("m", self.core.get("n", 6))) + 2, shape).astype(dt)
        if kind == "k":
            hi = min(200, np.iinfo(dt).max) if r.random() < .7 else np.iinfo(dt).max // 2
            lo = -5 if tc not in "BHILQ" else 0
            return r.integers(lo, hi, shape).astype(dt)
        if kind == "base":
            return r.integers(2, 17, shape).astype(dt)
        if kind in ("few", "few1", "fewsorted", "small", "pp"):
            unsigned = tc in "BHILQ"
            span = 3 if kind.startswith("few") and r.random() < .6 else 20
            v = r.integers(0 if unsigned else -span, span + 1, shape)
            if tc in INTS:
                if kind in ("few", "fewsorted", "pp") and r.random() < .25:
                    ii = np.iinfo(dt)
                    lo, hi = int(ii.min), int(ii.max)
                    v = v.astype(dt)
                    ext = np.array([lo, hi, lo + 1, hi - 1], dt)
                    v = np.where(r.random(shape) < .3, ext[r.integers(0, 4, shape)], v)
                v = np.asarray(v, dt)
            else:
                v = np.asarray(v / 2, dt)
                if self.special and kind != "fewsorted":
                    pool = np.array([np.nan, np.inf, -np.inf, -0.0])
                    v = np.where(r.random(shape) < self.special,
                                 pool[r.integers(0, 4, shape)], v).astype(dt)
            if kind == "fewsorted" and r.random() < .8:
                v = np.sort(v, axis=-1)
                if r.random() < .5:
                    v = v[..., ::-1]
            return np.asarray(v, dt)
        if kind == "sorted":
            v = r.integers(0 if tc in "BHILQ" else -20, 21, shape)
            v = np.sort(v, axis=-1)
            return np.asarray(v if tc in INTS else v / 2, dt)
        if kind in ("nonneg", "pos"):
            v = np.abs(r.integers(0, 17, shape) / 4) if r.random() < .6 else np.abs(r.normal(0, 2, shape))
            if kind == "pos":
                v = v + 0.25
            return np.asarray(v, dt)
        if kind == "p":
            return np.asarray(np.array([-1, 1, 2, 3, .5])[r.integers(0, 5, shape)], dt)
        if kind == "vp":
            return np.asarray(np.array([1, 2, 3, np.inf, 1.5])[r.integers(0, 5, shape)], dt)
        if kind == "period":
            return np.asarray(np.array([1, 2, 3, 6.25])[r.integers(0, 4, shape)], dt)
        if kind == "low":
            return np.asarray(-r.integers(0, 5, shape) / 2, dt)
        if kind == "high":
            return np.asarray(r.integers(0, 5, shape) / 2, dt)
        if kind == "nanny":
            v = r.integers(-8, 9, shape).astype(float)
            return np.asarray(np.where(r.random(shape) < .35, np.nan, v), dt)
        if kind == "sos":
            v = r.integers(-4, 5, shape) / 8
            v = np.asarray(v, float)
            if v.shape[-1] == 6:
                v[..., 3] = 1.0
            return np.asarray(v, dt)
        # "real"
        if tc in INTS:
            lo = 0 if tc in "BHILQ" else -20
            return r.integers(lo, 21, shape).astype(dt)
        with np.errstate(all="ignore"):
            if tc in CPLX:
                v = self._real(shape, tc) + 0j
                v = np.asarray(v, dt)
                v.imag = self._real(shape, tc)
                return v
            return np.asarray(self._real(shape, tc), dt)
