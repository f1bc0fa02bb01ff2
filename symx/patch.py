"""Swap the environment of the mealpy modules: numpy, random sources, clocks, scipy kernels, math.

`symbolic(run)` installs the symbolic environment, `concrete(assign)` only the scripted random sources
and clock (used by replays: everything else is the unmodified code on unmodified numpy).
Functions are recognised by identity, so it does not matter how a module imported them.
"""
import contextlib
import sys
import os
import math
import random as _random
import time as _time
import builtins
import types
import numpy as np
from . import core, npshim, rng
from .core import is_sym, SymReal, SymInt, SymBool, unop, wrap, const
from .npshim import SymArray, SHIM

_loaded = False
MODS = []


def load():
    """import every mealpy module once"""
    global _loaded, MODS
    if _loaded:
        return
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.filterwarnings("ignore")
    os.environ.setdefault("MPLBACKEND", "Agg")
    repo = os.environ.get("VERIF_REPO", "/repo")
    if repo not in sys.path:
        sys.path.insert(0, repo)
    import mealpy
    import pkgutil
    import importlib
    assert os.path.realpath(mealpy.__file__).startswith(os.path.realpath(repo) + os.sep), mealpy.__file__
    for m in pkgutil.walk_packages(mealpy.__path__, "mealpy."):
        importlib.import_module(m.name)
    core.MEALPY_DIR = os.path.dirname(os.path.realpath(mealpy.__file__)) + os.sep
    MODS = [m for n, m in sorted(sys.modules.items()) if (n == "mealpy" or n.startswith("mealpy.")) and m is not None]
    _loaded = True


def s_type(*a):
    if len(a) == 1:
        x = a[0]
        if is_sym(x):
            t = type(x.proto)
        elif isinstance(x, SymArray):
            return np.ndarray
        else:
            t = type(x)
        # inside the patched modules the names int/float are these stand-ins
        return DUAL_INT if t is int else DUAL_FLOAT if t is float else t
    return type(*a)


class _TypeShim:
    """`type` is used both as a function and (rarely) as a class"""


def s_isinstance(x, c):
    if is_sym(x):
        return isinstance(x.proto, c)
    if isinstance(x, rng.Gen):
        return isinstance(_GENP, c) or isinstance(x, c)
    return isinstance(x, c)


_GENP = np.random.default_rng(0)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return s_isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)


def s_int(x=0, *a):
    if type(x) is SymReal:
        return wrap(core.n_trunc(x.n), int(x.v), True)
    if type(x) is SymInt:
        return SymInt(x.n, x.v, True)
    if type(x) is SymBool:
        return wrap(core._num(x.n), int(x.v), True)
    if isinstance(x, SymArray):
        if x.size == 1 and x.ndim == 0:
            return s_int(x.item())
        if x.size == 1:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
    return int(x, *a)


def s_float(x=0.0):
    if is_sym(x):
        y = npshim.cast_scalar(x, "f")
        return SymReal(y.n, y.v, True) if is_sym(y) else float(y)
    if isinstance(x, SymArray):
        if x.ndim == 0:
            return s_float(x.item())
        raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
    return float(x)


def s_round(x, nd=None):
    if is_sym(x):
        return x.__round__(nd)
    return round(x) if nd is None else round(x, nd)


def _ext(name):
    real = getattr(builtins, name)
    op = "max" if name == "max" else "min"

    def f(*args, key=None, **kw):
        seq = args if len(args) > 1 else list(args[0])
        if key is not None or not seq or not builtins.any(is_sym(e) for e in seq) or not builtins.all(npshim.scalar_kind(e) for e in seq):
            return real(seq, key=key, **kw) if (key is not None or kw or len(args) == 1) else real(*args)
        acc = seq[0]
        for e in seq[1:]:
            if core._nonfinite(core.val_of(acc)) or core._nonfinite(core.val_of(e)):
                acc = e if bool((e > acc) if op == "max" else (e < acc)) else acc
            else:
                acc = core.binop(op, acc, e) if (is_sym(acc) or is_sym(e)) else (real(acc, e))
        return acc
    f.__name__ = name
    return f


s_max, s_min = _ext("max"), _ext("min")


def s_sum(xs, start=0):
    t = start
    for x in xs:
        t = t + x
    return t


class _Dual(type):
    pass


def make_dual(real, fn):
    """A callable that behaves like the type `real` in isinstance/==/hash but converts symbolically."""
    M = _IntMeta(real.__name__ + "Meta", (type,), {})

    class M2(_IntMeta):
        def __call__(cls, *a, **k):
            return fn(*a, **k)

        def __eq__(cls, o):
            return o is cls or o is real

        def __hash__(cls):
            return hash(real)

        def __repr__(cls):
            return repr(real)
    return M2(real.__name__, (), {"_real": real})


class MathShim(types.SimpleNamespace):
    def __getattr__(self, name):
        f = getattr(math, name)
        if not callable(f):
            return f
        g = math_fn(name)
        self.__dict__[name] = g
        return g


_MU = {"exp": "exp", "log": "log", "log2": "log2", "log10": "log10", "log1p": "log1p", "sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan",
       "tanh": "tanh", "atan": "arctan", "acos": "arccos", "asin": "arcsin", "fabs": "abs", "erf": "erf", "sinh": "sinh", "cosh": "cosh"}


def math_fn(name):
    f = getattr(math, name)

    def g(*a):
        if not builtins.any(is_sym(x) or isinstance(x, SymArray) for x in a):
            return f(*a)
        a = [x.item() if isinstance(x, SymArray) and x.ndim == 0 else x for x in a]
        x = a[0]
        if is_sym(x) and len(a) == 1:
            x = SymReal(core._real(core._num(x.n)), float(x.v), True)
            if name in _MU:
                return unop(_MU[name], x, True)
            if name == "floor":
                return x.__floor__()
            if name == "ceil":
                return x.__ceil__()
            if name == "trunc":
                return x.__trunc__()
            if name in ("isnan", "isinf"):
                return False
            if name == "isfinite":
                return True
        if name == "pow":
            return s_float(a[0]) ** s_float(a[1])
        if name == "log" and len(a) == 2:
            return g(a[0]) / math_fn("log")(a[1])
        if name == "hypot" and len(a) == 2:
            return unop("sqrt", a[0] * a[0] + a[1] * a[1])
        if name in ("fsum", "prod", "dist"):
            return npshim.opaque(f, a, {})
        return npshim.opaque(f, a, {})
    g.__name__ = name
    return g


def scipy_fn(f):
    def g(*a, **k):
        return npshim.opaque(f, a, k)
    g.__name__ = getattr(f, "__name__", "scipy")
    return g


class ScipyDist:
    """scipy.stats distribution: .rvs draws from random_state (or the global generator), the rest is opaque"""

    def __init__(self, real, src, glob):
        self._real, self._src, self._glob = real, src, glob

    def __call__(self, *a, **k):
        me = self

        class Frozen:
            def rvs(self, size=None, random_state=None):
                return me.rvs(*a, size=size, random_state=random_state, **k)

            def __getattr__(self, n):
                return lambda x: me.__getattr__(n)(x, *a, **k)
        return Frozen()

    def rvs(self, *args, loc=0.0, scale=1.0, size=None, random_state=None):
        n_shape = len([s for s in (getattr(self._real, "shapes", None) or "").split(",") if s.strip()])
        args = list(args)[n_shape:]
        if len(args) > 0:
            loc = args[0]
        if len(args) > 1:
            scale = args[1]
        if random_state is None:
            g = self._glob
        elif isinstance(random_state, rng.Gen):
            g = random_state
        else:
            g = rng.Gen(self._src, f"seed({random_state})")
        nm = self._real.name
        if size == 1:
            size = None
        base = {"cauchy": g._c, "norm": g._z, "uniform": g._u01, "expon": g._e}.get(nm)
        if base is None:
            base = g._z
        if self._src.symbolic:
            s = scale if npshim.is_scalar(scale) else npshim.asarr(scale)
            if bool(SHIM.any(npshim._s2v("lt", s, 0.0))):
                raise ValueError("Domain error in arguments. The `scale` parameter must be positive for all distributions, and many distributions have restrictions on shape parameters.")
        elif np.any(np.asarray(scale) < 0):
            raise ValueError("Domain error in arguments.")
        return g._affine(size, base, loc, scale)

    def __getattr__(self, name):
        f = getattr(self._real, name)
        if callable(f):
            return scipy_fn(f) if self._src.symbolic else f
        return f


class ErfShim:
    @staticmethod
    def erf(x):
        def one(e):
            return unop("erf", e) if is_sym(e) else np.float64(math.erf(e))
        if npshim.is_scalar(x) and not isinstance(x, np.ndarray):
            return one(x)
        a = npshim.asarr(x)
        return npshim._unbox(np.frompyfunc(one, 1, 1)(a.view(np.ndarray)), "f")


def qmc_shim(src, symbolic, real_qmc):
    """scipy.stats.qmc engines: points are arbitrary in [0,1)^d; unseeded engines draw from an unseeded source"""
    class Engine:
        def __init__(self, d, *a, seed=None, rng=None, **k):
            from . import rng as _r
            s = seed if seed is not None else rng
            self.d = int(d)
            if isinstance(s, _r.Gen):
                self.g = s
            elif s is None:
                src.n_unseeded += 1
                self.g = _r.Gen(src, f"{src.tag}qmc{src.n_unseeded}")
            else:
                self.g = _r.Gen(src, f"seed({s})")

        def random(self, n=1, **k):
            return self.g.random((int(n), self.d))

        def random_base2(self, m):
            return self.random(2 ** int(m))

        def reset(self):
            return self

        def fast_forward(self, n):
            return self

    class Q:
        LatinHypercube = Sobol = Halton = Engine
        QMCEngine = Engine

        @staticmethod
        def scale(sample, l_bounds, u_bounds, **k):
            if symbolic:
                lo, hi = npshim.asarr(l_bounds), npshim.asarr(u_bounds)
                return npshim.asarr(sample) * (hi - lo) + lo
            return real_qmc.scale(sample, l_bounds, u_bounds, **k)

        def __getattr__(self, n):
            return getattr(real_qmc, n)
    return Q()


class NoTqdm:
    def __init__(self, it=None, *a, **k):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def __getattr__(self, n):
        return lambda *a, **k: None


class Env:
    def __init__(self, src, symbolic, extra=None):
        self.src = src
        self.symbolic = symbolic
        self.npr = rng.NpRandom(src)
        self.rm = rng.RandomModule(src)
        self.clock = Clock = rng.Clock(src)
        self.saved = []
        self.extra = extra or {}

    def mapping(self):
        import scipy
        import scipy.stats as st
        import scipy.special as sp
        from scipy.stats import qmc
        src, sym = self.src, self.symbolic
        m = {}
        keep = []

        def put(real, stub):
            m[id(real)] = stub
            keep.append(real)
        put(_random, self.rm)
        put(_random.Random, self.rm.Random)
        for n in ("random", "uniform", "randint", "choice", "sample", "shuffle", "gauss", "randrange", "seed", "choices"):
            put(getattr(_random, n), getattr(self.rm, n))
        put(_time, self.clock)
        for n in ("time", "perf_counter", "monotonic", "process_time", "perf_counter_ns", "time_ns"):
            put(getattr(_time, n), getattr(self.clock, n))
        import tqdm as _t
        put(_t.tqdm, NoTqdm)
        put(np.random.default_rng, self.npr.default_rng)
        put(np.random, self.npr)
        for n in ("rand", "randn", "random", "uniform", "normal", "randint", "choice", "permutation", "shuffle", "seed", "standard_normal"):
            put(getattr(np.random, n), getattr(self.npr._glob, n))
        dists = {n: ScipyDist(getattr(st, n), src, self.npr._glob) for n in ("cauchy", "norm", "uniform", "expon", "levy", "gamma", "beta", "t", "levy_stable")}
        for n, d in dists.items():
            put(getattr(st, n), d)
        q = qmc_shim(src, sym, qmc)
        put(qmc, q)
        for n in ("LatinHypercube", "Sobol", "Halton"):
            put(getattr(qmc, n), getattr(q, n))
        stmod = types.SimpleNamespace(**dists, qmc=q)
        put(st, stmod)
        if sym:
            put(np, SHIM)
            put(math, MathShim())
            for n in dir(math):
                f = getattr(math, n)
                if callable(f) and not n.startswith("_"):
                    put(f, math_fn(n))
            spns = types.SimpleNamespace(erf=ErfShim.erf)
            put(sp.erf, ErfShim.erf)
            for n in ("gammaincinv", "gamma", "erfinv", "gammainc", "beta", "expit"):
                g = scipy_fn(getattr(sp, n))
                put(getattr(sp, n), g)
                setattr(spns, n, g)
            put(sp, spns)
            from scipy.spatial.distance import cdist, pdist, squareform
            import scipy.spatial.distance as sd
            cd = shim_cdist
            put(cdist, cd)
            put(pdist, scipy_fn(pdist))
            put(sd, types.SimpleNamespace(cdist=cd, pdist=scipy_fn(pdist), squareform=squareform))
        else:
            put(np, None)
            del m[id(np)]
        for real, stub in self.extra.get("by_value", []):
            put(real, stub)
        self.keep = keep
        return m

    def __enter__(self):
        load()
        m = self.mapping()
        names = {}
        if self.symbolic:
            SHIM.random = self.npr
            names = {"type": s_type, "isinstance": s_isinstance, "int": DUAL_INT, "float": DUAL_FLOAT, "max": s_max, "min": s_min, "round": s_round}
        for mod in MODS:
            d = mod.__dict__
            rep = {}
            for k, v in d.items():
                if k.startswith("__"):
                    continue
                s = m.get(id(v))
                if s is not None:
                    rep[k] = s
            for k, s in rep.items():
                self.saved.append((d, k, d[k], True))
                d[k] = s
            for k, s in names.items():
                if k not in d:
                    self.saved.append((d, k, None, False))
                    d[k] = s
        for d, k, v in self.extra.get("names", []):
            self.saved.append((d, k, d.get(k), k in d))
            d[k] = v
        if not self.symbolic:
            # unmodified numpy; only the random sources are scripted
            self.np_saved = (np.random.default_rng,)
            np.random.default_rng = self.npr.default_rng
            self.np_more = {}
            for n in ("rand", "randn", "random", "uniform", "normal", "randint", "choice", "permutation", "shuffle", "standard_normal", "seed"):
                self.np_more[n] = getattr(np.random, n)
                setattr(np.random, n, getattr(self.npr._glob, n))
        return self

    def __exit__(self, *exc):
        for d, k, v, had in reversed(self.saved):
            if had:
                d[k] = v
            else:
                d.pop(k, None)
        self.saved = []
        if not self.symbolic:
            np.random.default_rng = self.np_saved[0]
            for n, f in self.np_more.items():
                setattr(np.random, n, f)
        return False


def shim_cdist(a, b, metric="euclidean", **k):
    a, b = npshim.asarr(a), npshim.asarr(b)
    if metric != "euclidean" or not (npshim.has_sym(a) or npshim.has_sym(b)):
        from scipy.spatial.distance import cdist
        return npshim.opaque(cdist, (a, b), dict(metric=metric, **k))
    rows = []
    for x in a:
        rows.append([SHIM.linalg.norm(x - y) for y in b])
    return npshim.asarr(rows)


DUAL_INT = make_dual(int, s_int)
DUAL_FLOAT = make_dual(float, s_float)


@contextlib.contextmanager
def symbolic(run, src=None, extra=None):
    src = src or rng.Source(run.assign, run.seed, True)
    old = core.CUR
    core.set_current(run)
    try:
        with Env(src, True, extra) as e:
            with np.errstate(all="ignore"):
                yield e
    finally:
        core.set_current(old)


@contextlib.contextmanager
def concrete(assign, seed=0, src=None, extra=None):
    src = src or rng.Source(assign, seed, False)
    with Env(src, False, extra) as e:
        with np.errstate(all="ignore"):
            yield e
