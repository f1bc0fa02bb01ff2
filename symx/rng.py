"""Random sources as arbitrary values.

A draw from a generator is an input variable named after its stream (the seed) and its position in
the stream; a stub keeps only the documented contract of the distribution (support).  In concrete
mode (replay) the same class hands out plain numbers from the recorded assignment, so one class defines
both what the solver ranges over and what the replay feeds to the unmodified code.
"""
import hashlib
import math
import numpy as np
from . import core, npshim
from .core import SymReal, SymInt, SymBool, is_sym, wrap, const, node_of, val_of, decide, n_lt, n_eq, n_not, n_le
from .npshim import asarr, SymArray, cast_scalar, has_sym, concrete, _s2, _s2v

EPS = 2.0 ** -20      # continuous draws stay this far from the ends of their support
ZMAX = 6.0


EPOCH = 1.7e9


class Source:
    """Gives concrete values to draws; one per run."""

    def __init__(self, assign=None, seed=0, symbolic=True):
        self.assign = assign or {}
        self.seed = seed
        self.symbolic = symbolic
        self.n_unseeded = 0
        self.count = 0
        self.domain = {}
        self.values = {}
        self.tag = ""            # distinguishes unseeded sources of different runs
        self.log = []

    def u(self, name):
        h = hashlib.blake2b(f"{self.seed}|{name}".encode(), digest_size=8).digest()
        return (int.from_bytes(h, "big") + 0.5) / 2.0 ** 64

    def real(self, name, lo, hi, base):
        self.count += 1
        if self.symbolic:
            n, v = core.fresh(name, "R", lo, hi, base)
            return SymReal(n, v)
        v = self.assign[name] if name in self.assign else base()
        v = min(max(float(v), lo), hi)
        self.values[name] = v
        return v

    def int(self, name, lo, hi, base):
        self.count += 1
        if lo == hi:
            return int(lo)
        if self.symbolic:
            n, v = core.fresh(name, "I", lo, hi, base)
            return SymInt(n, v)
        v = self.assign[name] if name in self.assign else base()
        v = int(min(max(int(round(v)), lo), hi))
        self.values[name] = v
        return v


def norm_ppf(u):
    import statistics
    return statistics.NormalDist().inv_cdf(u)


def _shape(size):
    r = _shape_any(size)
    if r is not None and any(n < 0 for n in r):
        raise ValueError("negative dimensions are not allowed")
    return r


def _need(ok, what):
    """what numpy demands of the parameters of a distribution (NaN never satisfies it)"""
    if not ok:
        raise ValueError(what)


def _all(p, f):
    return bool(np.all(f(np.asarray(concrete(p), float))))


def _shape_any(size):
    if size is None:
        return None
    if is_sym(size):
        return (size.__index__(),)
    if isinstance(size, (int, np.integer)):
        return (int(size),)
    if isinstance(size, (float, np.floating)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if isinstance(size, np.ndarray):
        return tuple(int(s) for s in size.ravel().tolist())
    return tuple(s.__index__() for s in size)


class Gen:
    """Stands for numpy.random.Generator (also used for the global numpy.random functions)."""

    def __init__(self, src, stream, legacy=False):
        self.src = src
        self.stream = stream
        self.i = 0
        self.legacy = legacy

    # --- plumbing
    def __deepcopy__(self, memo):
        g = Gen(self.src, self.stream, self.legacy)
        g.i = self.i
        return g

    @property
    def bit_generator(self):
        return self

    @property
    def state(self):
        return {"i": self.i}

    def _name(self, kind):
        self.i += 1
        return f"{self.stream}.{self.i}.{kind}"

    def _arr(self, shape, f, kind="f"):
        if shape is None:
            r = f()
            return cast_scalar(r, kind) if False else r
        n = int(np.prod(shape)) if shape else 1
        els = [f() for _ in range(n)]
        if not self.src.symbolic:
            return np.array(els, dtype={"f": float, "i": np.int64, "b": bool}[kind]).reshape(shape)
        out = np.empty(n, object)
        out[:] = [cast_scalar(e, kind) for e in els]
        out = out.reshape(shape).view(SymArray)
        out.kind = kind
        return out

    def _pyscalar(self, x):
        if is_sym(x):
            return type(x)(x.n, x.v, True)
        return float(x)

    def _u01(self):
        nm = self._name("u")
        return self.src.real(nm, EPS, 1 - EPS, lambda: EPS + (1 - 2 * EPS) * self.src.u(nm))

    def _z(self):
        nm = self._name("z")
        return self.src.real(nm, -ZMAX, ZMAX, lambda: norm_ppf(self.src.u(nm)))

    def _affine(self, size, base, loc, scale, post=None):
        """loc + scale * draw, broadcast"""
        shape = _shape(size)
        loc_s, sc_s = npshim.is_scalar(loc), npshim.is_scalar(scale)
        if loc_s and sc_s and shape is None:
            d = base()
            r = loc + scale * d
            return self._pyscalar(r) if not isinstance(r, np.ndarray) else r
        if shape is None:
            sh = np.broadcast_shapes(np.shape(concrete(loc)) if not is_sym(loc) else (), np.shape(concrete(scale)) if not is_sym(scale) else ())
            if sh == ():
                loc = loc if loc_s else asarr(loc).item()
                scale = scale if sc_s else asarr(scale).item()
                return self._pyscalar(loc + scale * base())
            shape = sh
        d = self._arr(shape, base)
        if not self.src.symbolic:
            return np.asarray(loc) + np.asarray(scale) * d
        r = npshim.vec2("add", loc, npshim.vec2("mul", scale, d))
        if r.shape != tuple(shape):
            raise ValueError("Output size is not compatible with broadcast dimensions of inputs.")
        return npshim.cast(r, "f")

    # --- distributions
    def random(self, size=None, **k):
        shape = _shape(size)
        if shape is None:
            r = self._u01()
            return self._pyscalar(r)
        return self._arr(shape, self._u01)

    random_sample = random
    ranf = random

    def rand(self, *shape):
        return self.random(shape or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        if isinstance(low, (int, float)) and isinstance(high, (int, float)) and low == 0 and high == 1:
            return self.random(size)
        lo, hi = concrete(low), concrete(high)
        with np.errstate(all="ignore"):
            rng_ = np.asarray(hi, float) - np.asarray(lo, float)
        if not np.all(np.isfinite(rng_)):
            raise OverflowError("Range exceeds valid bounds" if np.size(rng_) > 1 or not np.any(np.isnan(rng_)) else "high - low range exceeds valid bounds")
        low = low if npshim.is_scalar(low) else (asarr(low) if self.src.symbolic else np.asarray(low, float))
        high = high if npshim.is_scalar(high) else (asarr(high) if self.src.symbolic else np.asarray(high, float))
        if not self.legacy:
            # numpy.random.Generator.uniform rejects high < low
            neg = _s2v("lt", high, low) if self.src.symbolic else (hi < lo)
            bad = npshim.SHIM.any(neg) if self.src.symbolic else np.any(neg)
            if bool(bad):
                raise ValueError("high - low < 0")
        return self._affine(size, self._u01, low, (high - low))

    def normal(self, loc=0.0, scale=1.0, size=None):
        self._check_scale(scale)
        return self._affine(size, self._z, loc, scale)

    def _check_scale(self, scale):
        if self.src.symbolic:
            s = scale if npshim.is_scalar(scale) else asarr(scale)
            if bool(npshim.SHIM.any(_s2v("lt", s, 0.0))):
                raise ValueError("scale < 0")
        elif np.any(np.asarray(scale) < 0):
            raise ValueError("scale < 0")

    def standard_normal(self, size=None, **k):
        shape = _shape(size)
        if shape is None:
            return self._pyscalar(self._z())
        return self._arr(shape, self._z)

    def randn(self, *shape):
        return self.standard_normal(shape or None)

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        return npshim.SHIM.exp(self.normal(mean, sigma, size))

    def _e(self):
        nm = self._name("e")
        return self.src.real(nm, EPS, 20.0, lambda: min(20.0, -math.log(1 - self.src.u(nm) * (1 - EPS))))

    def exponential(self, scale=1.0, size=None):
        self._check_scale(scale)
        return self._affine(size, self._e, 0.0, scale)

    def standard_exponential(self, size=None, **k):
        return self._affine(size, self._e, 0.0, 1.0)

    def _c(self):
        nm = self._name("c")
        return self.src.real(nm, -1e4, 1e4, lambda: max(-1e4, min(1e4, math.tan(math.pi * (self.src.u(nm) - 0.5)))))

    def standard_cauchy(self, size=None):
        return self._affine(size, self._c, 0.0, 1.0)

    def cauchy(self, loc=0.0, scale=1.0, size=None):
        return self._affine(size, self._c, loc, scale)

    def _pos(self, tag):
        nm = self._name(tag)
        return self.src.real(nm, EPS, 50.0, lambda: -math.log(1 - self.src.u(nm) * (1 - EPS)))

    def gamma(self, shape, scale=1.0, size=None):
        _need(_all(shape, lambda v: v >= 0) and _all(scale, lambda v: v >= 0), "shape < 0")
        return self._affine(size, lambda: self._pos("g"), 0.0, scale)

    def standard_gamma(self, shape, size=None):
        _need(_all(shape, lambda v: v >= 0), "shape < 0")
        return self._affine(size, lambda: self._pos("g"), 0.0, 1.0)

    def chisquare(self, df, size=None):
        _need(_all(df, lambda v: v > 0), "df <= 0")
        return self._affine(size, lambda: self._pos("q"), 0.0, 1.0)

    def rayleigh(self, scale=1.0, size=None):
        _need(_all(scale, lambda v: v >= 0), "scale < 0")
        return self._affine(size, lambda: self._pos("r"), 0.0, scale)

    def weibull(self, a, size=None):
        _need(_all(a, lambda v: v >= 0), "a < 0")
        return self._affine(size, lambda: self._pos("w"), 0.0, 1.0)

    def pareto(self, a, size=None):
        _need(_all(a, lambda v: v > 0), "a <= 0")
        return self._affine(size, lambda: self._pos("p"), 0.0, 1.0)

    def beta(self, a, b, size=None):
        _need(_all(a, lambda v: v > 0) and _all(b, lambda v: v > 0), "a <= 0")
        return self.random(size)

    def standard_t(self, df, size=None):
        _need(_all(df, lambda v: v > 0), "df <= 0")
        return self._affine(size, self._c, 0.0, 1.0)

    def laplace(self, loc=0.0, scale=1.0, size=None):
        self._check_scale(scale)
        return self._affine(size, self._z, loc, scale)

    def logistic(self, loc=0.0, scale=1.0, size=None):
        self._check_scale(scale)
        return self._affine(size, self._z, loc, scale)

    def triangular(self, left, mode, right, size=None):
        return self._affine(size, self._u01, left, right - left)

    def binomial(self, n, p, size=None):
        n = int(concrete(n))
        _need(n >= 0 and _all(p, lambda v: (v >= 0) & (v <= 1)), "p < 0, p > 1 or p is NaN")

        def one():
            nm = self._name("b")
            return self.src.int(nm, 0, n, lambda: int(self.src.u(nm) * (n + 1)))
        shape = _shape(size)
        return one() if shape is None else self._arr(shape, one, "i")

    def poisson(self, lam=1.0, size=None):
        _need(_all(lam, lambda v: v >= 0), "lam < 0 or lam is NaN")
        def one():
            nm = self._name("po")
            return self.src.int(nm, 0, 50, lambda: int(self.src.u(nm) * 4))
        shape = _shape(size)
        return one() if shape is None else self._arr(shape, one, "i")

    def multivariate_normal(self, mean, cov, size=None, **k):
        m = asarr(mean) if self.src.symbolic else np.asarray(mean, float)
        C = np.asarray(concrete(cov), float)
        d = len(m)
        if C.shape != (d, d):
            raise ValueError("mean and cov must have same length")
        shape = _shape(size) or ()
        # contract kept: an affine image of standard normals
        with np.errstate(all="ignore"):
            if not np.all(np.isfinite(C)):
                if not k.get("method") == "cholesky":
                    raise np.linalg.LinAlgError("SVD did not converge")
            w, V = np.linalg.eigh((C + C.T) / 2)
        A = V * np.sqrt(np.maximum(w, 0))
        n = int(np.prod(shape)) if shape else 1
        rows = []
        for _ in range(n):
            z = self._arr((d,), self._z)
            if self.src.symbolic:
                if has_sym(cov):
                    core.CUR.note_concretized("opaque:multivariate_normal")
                rows.append(m + npshim.SHIM.dot(asarr(A), z))
            else:
                rows.append(m + A @ z)
        if shape == ():
            return rows[0]
        r = asarr(rows) if self.src.symbolic else np.array(rows)
        return r.reshape(shape + (d,))

    # --- discrete
    def _int(self, lo, hi):
        """integer in [lo, hi] inclusive (concrete ends)"""
        nm = self._name("i")
        return self.src.int(nm, lo, hi, lambda: lo + int(self.src.u(nm) * (hi - lo + 1)))

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        shape = _shape(size)
        if npshim.is_scalar(low) and npshim.is_scalar(high):
            lo = self._cint(low)
            hi = self._cint(high) - (0 if endpoint else 1)
            if lo > hi:
                raise ValueError("low >= high" if not endpoint else "low > high")
            if shape is None:
                return self._int(lo, hi)
            return self._arr(shape, lambda: self._int(lo, hi), "i")
        lo, hi = np.asarray(concrete(low)), np.asarray(concrete(high))
        hi1 = hi if endpoint else hi - 1
        lo, hi1 = np.broadcast_arrays(lo, hi1)
        # numpy truncates float bounds after the subtraction
        lo, hi1 = lo.astype(np.int64), hi1.astype(np.int64)
        if np.any(lo > hi1):
            raise ValueError("low >= high")
        it = iter(list(zip(lo.ravel().tolist(), hi1.ravel().tolist())))
        sh = lo.shape if shape is None else shape
        if shape is not None and lo.shape != shape:
            lo, hi1 = np.broadcast_to(lo, shape), np.broadcast_to(hi1, shape)
            it = iter(list(zip(lo.ravel().tolist(), hi1.ravel().tolist())))
        return self._arr(sh, lambda: self._int(*next(it)), "i")

    def _cint(self, x):
        if type(x) is SymInt:
            return x.__index__()
        if type(x) is SymReal:
            return int(x)
        if isinstance(x, np.ndarray):
            x = x.item()
        return int(x)

    def randint(self, low, high=None, size=None, dtype=None):
        return self.integers(low, high, size)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if is_sym(a):
            a = self._cint(a)
        if isinstance(a, (int, np.integer)):
            n, items = int(a), None
            if n <= 0 and _shape(size) != (0,):
                raise ValueError("a must be a positive integer unless no samples are taken")
        else:
            items = a if isinstance(a, np.ndarray) else (list(a) if not isinstance(a, (list, tuple)) else a)
            n = len(items)
            if n == 0 and _shape(size) != (0,):
                raise ValueError("a cannot be empty unless no samples are taken")
        shape = _shape(size)
        k = 1 if shape is None else int(np.prod(shape))
        pv = None
        if p is not None:
            pl = list(asarr(p).view(np.ndarray).tolist()) if self.src.symbolic else [float(x) for x in np.asarray(p, float).ravel()]
            if len(pl) != n:
                raise ValueError("a and p must have same size")
            pv = [float(val_of(x)) for x in pl]
            if any(x != x for x in pv):
                raise ValueError("Probabilities contain NaN")
            for j, x in enumerate(pl):
                neg = (x < 0)
                if bool(neg):
                    raise ValueError("Probabilities are not non-negative")
            if abs(math.fsum(pv) - 1.0) > 1e-7:
                raise ValueError("Probabilities do not sum to 1. See Notes section of docstring for more information.")
            support = [j for j in range(n) if (bool(pl[j] > 0) if getattr(self.src, 'exact_choice', False) and is_sym(pl[j]) else pv[j] > 0)]
            if not replace and k > len(support):
                raise ValueError("Fewer non-zero entries in p than size")
        if not replace and k > n:
            raise ValueError("Cannot take a larger sample than population when replace is False")
        idxs = []
        if k == 0 and items is not None:
            return np.array(concrete(list(items)) if not isinstance(items, np.ndarray) else concrete(items))[:0].reshape(shape)
        for _ in range(k):
            used = set(idxs) if not replace else ()
            if p is not None:
                cand = [j for j in support if j not in used]
            elif used:
                cand = [j for j in range(n) if j not in used]
            else:
                cand = range(n)
            c = self._int(0, len(cand) - 1)
            if replace and p is None and (items is None or self._numeric(items)):
                idxs.append(c)                     # stays symbolic
                continue
            c = int(c)                             # position among the candidates, pinned
            j = cand[c]
            if p is not None and is_sym(pl[j]):
                decide(n_lt(const(0.0), node_of(pl[j])), True, "psupport")
            idxs.append(j)
        if items is None:
            if shape is None:
                return idxs[0]
            it = iter(idxs)
            return self._arr(shape, lambda: next(it), "i")
        if isinstance(items, np.ndarray):
            if shape is None:
                return items[self._pick(items, idxs[0])]
            return items[np.array([self._pick(items, i) for i in idxs], dtype=np.int64).reshape(shape)]
        if shape is None:
            v = items[self._pick(items, idxs[0])]
            if self.src.symbolic:
                if npshim.scalar_kind(v) is not None:
                    return cast_scalar(v, npshim.scalar_kind(v))
                r = asarr(v) if isinstance(v, (list, tuple)) else None
                return r if r is not None else (v if not isinstance(v, str) else np.str_(v))
            return np.array(list(items) if not isinstance(items, (list, tuple)) else items)[idxs[0]] if _plain(items) else v
        sel = [items[self._pick(items, i)] for i in idxs]
        r = asarr(sel) if self.src.symbolic else np.array(sel)
        if r is None:
            r = np.array(sel)
        return r.reshape(tuple(shape) + r.shape[1:])

    def _numeric(self, items):
        return False

    def _pick(self, items, i):
        return i.__index__() if is_sym(i) else int(i)

    def permutation(self, x, axis=0):
        if is_sym(x):
            x = self._cint(x)
        if isinstance(x, (int, np.integer)):
            arr = np.arange(int(x))
        else:
            arr = x if isinstance(x, np.ndarray) else (asarr(x) if self.src.symbolic and asarr(x) is not None else np.array(x))
        n = len(arr)
        return arr[np.array(self._perm(n), dtype=np.int64)]

    def permuted(self, x, axis=None, **k):
        return self.permutation(x)

    def _perm(self, n):
        rest, out = list(range(n)), []
        while rest:
            c = self._int(0, len(rest) - 1)
            out.append(rest.pop(int(c)))
        return out

    def shuffle(self, x, axis=0):
        p = self._perm(len(x))
        if isinstance(x, np.ndarray):
            x[...] = x[np.array(p, dtype=np.int64)].copy()
        else:
            x[:] = [x[i] for i in p]

    def bytes(self, n):
        return bytes(int(self._int(0, 255)) for _ in range(n))

    def seed(self, s=None):
        # reseeding the global generator: a fresh deterministic stream
        self.stream = f"{self.src.tag}np.seed({s})" if s is None else f"np.seed({s})"
        self.i = 0

    def get_state(self, *a, **k):
        return (self.stream, self.i)

    def set_state(self, st):
        self.stream, self.i = st

    def spawn(self, n):
        return [Gen(self.src, f"{self.stream}.spawn{self._name('s')}") for _ in range(n)]


def _plain(items):
    return all(isinstance(e, (int, float, bool, str, np.generic)) for e in items)


class NpRandom:
    """stands for the module numpy.random"""

    def __init__(self, src):
        self._src = src
        self._glob = Gen(src, f"{src.tag}npglobal", legacy=True)
        self.Generator = np.random.Generator
        self.RandomState = lambda seed=None: self.default_rng(seed, legacy=True)

    def default_rng(self, seed=None, legacy=False):
        if isinstance(seed, Gen):
            return seed
        if seed is None:
            self._src.n_unseeded += 1
            return Gen(self._src, f"{self._src.tag}unseeded{self._src.n_unseeded}", legacy)
        if is_sym(seed):
            seed = seed.__index__()
        return Gen(self._src, f"seed({seed})", legacy)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._glob, name)


class PyRandom:
    """stands for random.Random / the module random"""

    def __init__(self, src, stream):
        self.g = Gen(src, stream)
        self.src = src

    def __deepcopy__(self, memo):
        r = PyRandom(self.src, self.g.stream)
        r.g.i = self.g.i
        return r

    def random(self): return self.g.random()
    def uniform(self, a, b): return a + (b - a) * self.g.random()

    def randint(self, a, b):
        r = self.g.integers(a, b + 1)
        return r

    def randrange(self, a, b=None, step=1):
        if b is None:
            a, b = 0, a
        n = len(range(int(a), int(b), int(step)))
        if n == 0:
            raise ValueError("empty range for randrange()")
        return range(int(a), int(b), int(step))[int(self.g._int(0, n - 1))]

    def choice(self, seq):
        if not len(seq):
            raise IndexError("Cannot choose from an empty sequence")
        return seq[int(self.g._int(0, len(seq) - 1))]

    def choices(self, pop, weights=None, cum_weights=None, k=1):
        pop = list(pop)
        if weights is not None:
            ws = [float(val_of(w)) for w in weights]
            cand = [i for i, w in enumerate(ws) if w > 0] or [len(pop) - 1]
        else:
            cand = list(range(len(pop)))
        return [pop[cand[int(self.g._int(0, len(cand) - 1))]] for _ in range(k)]

    def sample(self, pop, k, **kw):
        if isinstance(pop, (set, frozenset)):
            raise TypeError("Population must be a sequence.  For dicts or sets, use sorted(d).")
        pop = list(pop)
        k = k.__index__()
        if not 0 <= k <= len(pop):
            raise ValueError("Sample larger than population or is negative")
        p, out = list(range(len(pop))), []
        for _ in range(k):
            out.append(pop[p.pop(int(self.g._int(0, len(p) - 1)))])
        return out

    def shuffle(self, x):
        self.g.shuffle(x)

    def gauss(self, mu=0.0, sigma=1.0): return mu + sigma * self.g.standard_normal()
    normalvariate = gauss
    def expovariate(self, lambd=1.0): return self.g.standard_exponential() / lambd
    def betavariate(self, a, b): return self.g.random()
    def seed(self, s=None, *a): self.g.seed(s)
    def getstate(self): return self.g.get_state()
    def setstate(self, s): self.g.set_state(s)


class RandomModule:
    """stands for the module random"""

    def __init__(self, src):
        self._src = src
        self._glob = PyRandom(src, f"{src.tag}pyglobal")

    def Random(self, seed=None):
        if seed is None:
            self._src.n_unseeded += 1
            return PyRandom(self._src, f"{self._src.tag}pyunseeded{self._src.n_unseeded}")
        return PyRandom(self._src, f"py({seed})")

    def SystemRandom(self, *a):
        return self.Random(None)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._glob, name)


class Clock:
    """arbitrary non-decreasing instants"""

    def __init__(self, src):
        self.src = src
        self.i = 0
        self.last = None
        src.ticks = []

    def _tick(self, *a):
        self.i += 1
        nm = f"{self.src.tag}clock.{self.i}"
        if not self.src.symbolic:
            d = self.src.real(nm, 0.0, 100.0, lambda: 0.001)
            self.last = (self.last or 0.0) + d
            self.src.ticks.append(self.last)
            return self.last
        d = self.src.real(nm, 0.0, 100.0, lambda: 0.001)
        d = SymReal(d.n, d.v, True)
        self.last = d if self.last is None else self.last + d
        self.src.ticks.append(self.last)
        return self.last

    perf_counter = monotonic = process_time = _tick

    def time(self, *a):
        return self._tick() + EPOCH      # the wall clock has another origin than the others

    def time_ns(self, *a):
        return self.randint_ns()

    def randint_ns(self):
        self.i += 1
        return self.src.int(f"{self.src.tag}clockns.{self.i}", 0, 10 ** 12, lambda: 1000 * self.i)
    perf_counter_ns = monotonic_ns = time_ns

    def sleep(self, *a):
        pass

    def strftime(self, *a):
        return "now"

    def localtime(self, *a):
        return None

    def __getattr__(self, name):
        import time as _t
        return getattr(_t, name)
