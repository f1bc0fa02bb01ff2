"""A numpy look-alike whose arrays may hold symbolic scalars.

SymArray is an object-dtype ndarray subclass; `SHIM` stands in for the module `np` inside the code
under test.  Functions that are not given a symbolic meaning are applied to the shadow values and
their results become fresh unconstrained variables ("opaque"), which over-approximates them.
"""
import functools
import itertools
import math
import numbers
import builtins
import numpy as np
from . import core
from .core import (SymReal, SymInt, SymBool, is_sym, binop, unop, wrap, const, node_of, val_of, decide,
                   n_and, n_or, n_not, n_eq, n_lt, n_ite, n_add, truth, TRUE, FALSE)

_K = {"b": 0, "i": 1, "f": 2}


def scalar_kind(x):
    t = type(x)
    if t is SymReal:
        return "f"
    if t is SymInt:
        return "i"
    if t is SymBool or isinstance(x, (bool, np.bool_)):
        return "b"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, (float, np.floating)):
        return "f"
    return None


def kind_of_dtype(d):
    if d is None:
        return None
    try:
        k = np.dtype(d).kind
    except TypeError:
        return "O"
    return {"f": "f", "i": "i", "u": "i", "b": "b"}.get(k, "O")


def cast_scalar(x, kind):
    """Scalar of the given kind with numpy-scalar flavour."""
    t = type(x)
    if t is SymReal:
        if kind == "f":
            return x if not x.py else SymReal(x.n, x.v)
        if kind == "i":
            return wrap(core.n_trunc(x.n), int(x.v))
        if kind == "b":
            return wrap(n_not(n_eq(x.n, const(0.0))), x.v != 0)
        return x
    if t is SymInt:
        if kind == "f":
            return wrap(core._real(x.n), float(x.v))
        if kind == "i":
            return x if not x.py else SymInt(x.n, x.v)
        if kind == "b":
            return wrap(n_not(n_eq(x.n, const(0))), x.v != 0)
        return x
    if t is SymBool:
        if kind == "f":
            return wrap(core._real(x.n), float(x.v))
        if kind == "i":
            return wrap(core._num(x.n), int(x.v))
        return x if not x.py else SymBool(x.n, x.v)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return cast_scalar(x.item() if not isinstance(x, SymArray) else np.ndarray.__getitem__(x.view(np.ndarray), ()), kind)
    if kind == "f":
        return np.float64(x)
    if kind == "i":
        if isinstance(x, (float, np.floating)) and (x != x or math.isinf(x)):
            return np.int64(np.iinfo(np.int64).min)
        return np.int64(int(x))
    if kind == "b":
        return np.bool_(x)
    return x


_DTYPES = {"f": np.dtype(float), "i": np.dtype(np.int64), "b": np.dtype(bool)}
_OBJ = np.dtype(object)


class SymArray(np.ndarray):
    def __array_finalize__(self, obj):
        self.kind = getattr(obj, "kind", "f")

    @property
    def dtype(self):        # what the code under test sees; the storage is an object array
        return _DTYPES.get(self.kind, _OBJ)

    def __reduce__(self):
        return (asarr, (np.ndarray.tolist(self), self.kind))

    def __deepcopy__(self, memo):
        r = np.ndarray.copy(self.view(np.ndarray)).view(SymArray)
        r.kind = self.kind
        return r

    # ---- indexing
    def __getitem__(self, key):
        r = np.ndarray.__getitem__(self, norm_key(key))
        if type(r) is np.ndarray:
            r = r.view(SymArray)
        if isinstance(r, SymArray):
            r.kind = self.kind
        return r

    def __setitem__(self, key, value):
        base = self.view(np.ndarray)
        kind = self.kind
        if isinstance(key, SymArray) and key.kind == "b" and key.shape == self.shape \
                and has_sym(key):
            if is_scalar(value):
                v = cast_scalar(value, kind)
                flatk, flat = key.view(np.ndarray).ravel(), base.reshape(-1)
                new = [sel(c, v, o) for c, o in zip(flatk.tolist(), flat.tolist())]
                tmp = np.empty(len(new), object)
                tmp[:] = new
                base[...] = tmp.reshape(self.shape)
                return
        k = norm_key(key)
        if is_scalar(value):
            base[k] = cast_scalar(value, kind)
            return
        v = asarr(value)
        if v is None or not isinstance(v, SymArray):
            base[k] = value
            return
        v = cast(v, kind).view(np.ndarray)
        if v.ndim == 0:
            v = v[()]
        tgt = np.ndarray.__getitem__(base, k)
        if isinstance(tgt, np.ndarray) and tgt.dtype == object and not is_scalar(tgt):
            base[k] = v
        else:
            if isinstance(v, np.ndarray):
                if v.size != 1:
                    raise ValueError("setting an array element with a sequence.")
                if v.ndim > 0:
                    raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
                v = v.ravel()[0]
            base[k] = v

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, x):
        return bool(SHIM.any(vec2("eq", self, x)))

    # ---- python protocol
    def __bool__(self):
        if self.size == 1:
            return bool(np.ndarray.reshape(self.view(np.ndarray), -1)[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        if self.ndim != 0:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return float(self.view(np.ndarray)[()])

    def __int__(self):
        if self.ndim != 0:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return int(self.view(np.ndarray)[()])

    def __index__(self):
        if self.ndim != 0:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return self.view(np.ndarray)[()].__index__()

    def __round__(self, nd=0):
        return SHIM.round(self, nd or 0)

    # ---- ufuncs
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        name = ufunc.__name__
        if method == "reduce":
            f = {"add": SHIM.sum, "maximum": SHIM.max, "minimum": SHIM.min, "multiply": SHIM.prod,
                 "logical_and": SHIM.all, "logical_or": SHIM.any}.get(name)
            if f is None:
                return NotImplemented
            return f(inputs[0], axis=kw.get("axis", 0))
        if method != "__call__":
            return NotImplemented
        r = apply_ufunc(name, inputs, kw)
        if r is NotImplemented:
            return NotImplemented
        if out is not None:
            o = out[0]
            if isinstance(o, SymArray):
                o[...] = r
            else:
                o[...] = r
            return o
        return r

    def __array_function__(self, func, types, args, kwargs):
        f = getattr(SHIM, func.__name__, None)
        if func.__module__ == "numpy.linalg":
            f = getattr(SHIM.linalg, func.__name__, None)
        if f is not None:
            return f(*args, **kwargs)
        return super().__array_function__(func, types, args, kwargs)

    # ---- methods
    def sum(self, axis=None, dtype=None, out=None, keepdims=False): return SHIM.sum(self, axis=axis, keepdims=keepdims)
    def prod(self, axis=None, **k): return SHIM.prod(self, axis=axis)
    def mean(self, axis=None, dtype=None, out=None, keepdims=False): return SHIM.mean(self, axis=axis, keepdims=keepdims)
    def std(self, axis=None, **k): return SHIM.std(self, axis=axis, **k)
    def var(self, axis=None, **k): return SHIM.var(self, axis=axis, **k)
    def min(self, axis=None, out=None, keepdims=False): return SHIM.min(self, axis=axis, keepdims=keepdims)
    def max(self, axis=None, out=None, keepdims=False): return SHIM.max(self, axis=axis, keepdims=keepdims)
    def ptp(self, axis=None): return SHIM.ptp(self, axis=axis)
    def argmin(self, axis=None, **k): return SHIM.argmin(self, axis=axis)
    def argmax(self, axis=None, **k): return SHIM.argmax(self, axis=axis)
    def argsort(self, axis=-1, **k): return SHIM.argsort(self, axis=axis)

    def sort(self, axis=-1, **k):
        self[...] = SHIM.sort(self, axis=axis)

    def any(self, axis=None, **k): return SHIM.any(self, axis=axis)
    def all(self, axis=None, **k): return SHIM.all(self, axis=axis)
    def clip(self, min=None, max=None, out=None, **k): return SHIM.clip(self, min, max, out=out)
    def round(self, decimals=0, out=None): return SHIM.round(self, decimals)
    def dot(self, b): return SHIM.dot(self, b)
    def cumsum(self, axis=None, **k): return SHIM.cumsum(self, axis=axis)
    def nonzero(self): return SHIM.nonzero(self)

    def astype(self, dtype, **k):
        kd = kind_of_dtype(dtype)
        if kd == "O":
            return self.copy() if dtype is object else concrete(self).astype(dtype)
        return cast(self, kd, copy=True)

    def copy(self, order="C"):
        r = np.ndarray.copy(self.view(np.ndarray)).view(SymArray)
        r.kind = self.kind
        return r

    def fill(self, v):
        self[...] = v

    def item(self, *a):
        r = np.ndarray.item(self, *a)
        if is_sym(r):
            return type(r)(r.n, r.v, True)
        return r.item() if isinstance(r, np.generic) else r

    def tolist(self):
        def conv(x):
            if isinstance(x, list):
                return [conv(y) for y in x]
            if is_sym(x):
                return type(x)(x.n, x.v, True)
            return x.item() if isinstance(x, np.generic) else x
        return conv(np.ndarray.tolist(self.view(np.ndarray)))

    def __repr__(self):
        return f"SymArray({concrete(self)!r})"

    def __str__(self):
        return str(concrete(self))

    def __format__(self, spec):
        return format(concrete(self), spec)

    # arithmetic through our scalar ops
    def __iadd__(self, o): return self._inpl("add", o)
    def __isub__(self, o): return self._inpl("sub", o)
    def __imul__(self, o): return self._inpl("mul", o)
    def __itruediv__(self, o): return self._inpl("div", o)
    def __ifloordiv__(self, o): return self._inpl("floordiv", o)
    def __imod__(self, o): return self._inpl("mod", o)
    def __ipow__(self, o): return self._inpl("pow", o)

    def _inpl(self, name, o):
        r = vec2(name, self, o)
        rk = r.kind if isinstance(r, SymArray) else scalar_kind(r)
        if _K[rk] > _K[self.kind]:
            raise np._core._exceptions._UFuncOutputCastingError(np.add, "same_kind", np.dtype(float), np.dtype(int), 0)
        self[...] = r
        return self

    # comparison dunders through our scalar ops
    def __lt__(self, o): return vec2("lt", self, o)
    def __le__(self, o): return vec2("le", self, o)
    def __gt__(self, o): return vec2("gt", self, o)
    def __ge__(self, o): return vec2("ge", self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return np.zeros(self.shape, bool)
        return vec2("eq", self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return np.ones(self.shape, bool)
        return vec2("ne", self, o)

    __hash__ = None


def is_scalar(x):
    return is_sym(x) or np.isscalar(x) or x is None or (isinstance(x, np.ndarray) and x.ndim == 0)


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        if not isinstance(x, SymArray) and x.dtype != object:
            return False
        for e in x.view(np.ndarray).ravel().tolist():
            if is_sym(e):
                return True
        return False
    if isinstance(x, (list, tuple)):
        return builtins.any(has_sym(e) for e in x)
    return False


def sel(c, a, b):
    """element-wise select"""
    if not is_sym(c):
        return a if c else b
    ka, kb = scalar_kind(a), scalar_kind(b)
    if ka is None or kb is None:
        return a if bool(c) else b
    va, vb = val_of(a), val_of(b)
    if core._nonfinite(va) or core._nonfinite(vb):
        return a if bool(c) else b          # branch on non finite values
    k = ka if _K[ka] >= _K[kb] else kb
    a, b = cast_scalar(a, k), cast_scalar(b, k)
    return wrap(n_ite(truth(c), node_of(a), node_of(b)), val_of(a) if val_of(c) else val_of(b))


def norm_key(key):
    if isinstance(key, tuple):
        return tuple(norm_key1(k) for k in key)
    return norm_key1(key)


def norm_key1(k):
    if k is None or k is Ellipsis:
        return k
    if isinstance(k, slice):
        f = lambda x: x.__index__() if is_sym(x) else x
        return slice(f(k.start), f(k.stop), f(k.step))
    if type(k) is SymInt:
        return k.__index__()
    if type(k) is SymBool:
        return bool(k)
    if type(k) is SymReal:
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    if isinstance(k, list):
        if builtins.any(is_sym(x) for x in k):
            k = asarr(k)
        else:
            return k
    if isinstance(k, SymArray):
        if k.kind == "b":
            return pin_mask(k)
        if k.kind == "i":
            return pin_int(k)
        if k.size == 0:
            return np.zeros(k.shape, int)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    return k


def pin_mask(m):
    flat = m.view(np.ndarray).ravel().tolist() if isinstance(m, SymArray) or m.dtype == object else m.ravel().tolist()
    return np.array([bool(x) for x in flat], dtype=bool).reshape(m.shape)


def pin_int(a):
    flat = a.view(np.ndarray).ravel().tolist()
    return np.array([int(x) for x in flat], dtype=np.int64).reshape(a.shape)


def asarr(x, kind=None):
    """Nested data -> SymArray (object dtype), or None if it is not numeric."""
    if isinstance(x, SymArray):
        if kind is None or kind == x.kind:
            return x
        return cast(x, kind)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            els = x.ravel().tolist()
            ks = [scalar_kind(e) for e in els]
            if builtins.any(k is None for k in ks):
                return None
            k = kind or (max(ks, key=_K.get) if ks else "f")
            r = x.astype(object).view(SymArray)
            r.kind = k
            return cast(r, k, force=True)
        k = {"f": "f", "i": "i", "u": "i", "b": "b"}.get(x.dtype.kind)
        if k is None:
            return None
        r = np.empty(x.shape, object)
        cs = {"f": np.float64, "i": np.int64, "b": np.bool_}[kind or k]
        flat = np.empty(x.size, object)
        flat[:] = [cs(e) for e in x.ravel().tolist()] if kind in (None, k) or (kind == "f") else [cast_scalar(e, kind) for e in x.ravel().tolist()]
        r = flat.reshape(x.shape).view(SymArray)
        r.kind = kind or k
        return r
    if is_sym(x) or isinstance(x, (int, float, np.generic)):
        k = scalar_kind(x)
        if k is None:
            return None
        k = kind or k
        r = np.empty((), object)
        r[()] = cast_scalar(x, k)
        r = r.view(SymArray)
        r.kind = k
        return r
    if isinstance(x, (range, map, filter, zip)) or type(x).__name__ in ("dict_values", "dict_keys"):
        x = list(x)
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            r = np.empty(0, object).view(SymArray)
            r.kind = kind or "f"
            return r
        if not builtins.any(isinstance(e, (list, tuple, np.ndarray, range)) for e in x):
            ks = [scalar_kind(e) for e in x]
            if builtins.any(k is None for k in ks):
                return None
            k = kind or max(ks, key=_K.get)
            r = np.empty(len(x), object)
            r[:] = [cast_scalar(e, k) for e in x]
            r = r.view(SymArray)
            r.kind = k
            return r
        parts = [asarr(e, kind) for e in x]
        if builtins.any(p is None for p in parts):
            return None
        shp = parts[0].shape
        if builtins.any(p.shape != shp for p in parts):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        k = kind or max((p.kind for p in parts), key=_K.get)
        r = np.empty((len(parts),) + shp, object)
        for i, p in enumerate(parts):
            r[i] = cast(p, k).view(np.ndarray) if shp else cast(p, k).view(np.ndarray)[()]
        r = r.view(SymArray)
        r.kind = k
        return r
    return None


def cast(a, kind, copy=False, force=False):
    if a.kind == kind and not force:
        return a.copy() if copy else a
    flat = a.view(np.ndarray).ravel().tolist()
    r = np.empty(len(flat), object)
    r[:] = [cast_scalar(e, kind) for e in flat]
    r = r.reshape(a.shape).view(SymArray)
    r.kind = kind
    return r


def concrete(x):
    """Shadow of a value as real numpy/python data."""
    if is_sym(x):
        v = x.v
        return v if x.py else {"R": np.float64, "I": np.int64, "B": np.bool_}[x.n.sort](v)
    if isinstance(x, SymArray) or (isinstance(x, np.ndarray) and x.dtype == object):
        k = getattr(x, "kind", None)
        dt = {"f": float, "i": np.int64, "b": bool}.get(k)
        flat = [val_of(e) for e in x.view(np.ndarray).ravel().tolist()]
        if dt is None:
            r = np.empty(len(flat), object)
            r[:] = flat
            return r.reshape(x.shape)
        return np.array(flat, dtype=dt).reshape(x.shape)
    if isinstance(x, list):
        return [concrete(e) for e in x]
    if isinstance(x, tuple):
        return tuple(concrete(e) for e in x)
    if isinstance(x, dict):
        return {k: concrete(v) for k, v in x.items()}
    return x


def _box(x):
    """operand -> plain object ndarray usable by frompyfunc, plus kind"""
    if isinstance(x, SymArray):
        return x.view(np.ndarray), x.kind
    a = asarr(x)
    if a is None:
        raise TypeError(f"unsupported operand {type(x)}")
    return a.view(np.ndarray), a.kind


def _unbox(r, kind):
    if isinstance(r, np.ndarray):
        r = r.view(SymArray)
        r.kind = kind
        return r
    return r


def _s2(name, a, b):
    if type(a) in _SYMT or type(b) in _SYMT:
        return binop(name, a, b)
    return core._concrete(name, a, b, False)


_SYMT = (SymReal, SymInt, SymBool)
_F2 = {n: np.frompyfunc(functools.partial(_s2, n), 2, 1) for n in core._NPOP}
_CMP = {"lt", "le", "gt", "ge", "eq", "ne"}


def vec2(name, a, b):
    xa, ka = _box(a)
    xb, kb = _box(b)
    if core.CUR is not None:
        core.CUR.ops += xa.size + xb.size
    r = _F2[name](xa, xb)
    if name in _CMP:
        k = "b"
    elif name == "div":
        k = "f"
    else:
        k = ka if _K[ka] >= _K[kb] else kb
        if k == "b":
            k = "i"
        if k == "f" and _K[ka] != _K[kb]:
            # int op float stays float in every element
            pass
    r = _unbox(r, k)
    return r


def _lg(f, g):
    def h(a, b):
        if not is_sym(a) and not is_sym(b):
            return np.bool_(g(bool(a), bool(b)))
        return wrap(f(truth(a), truth(b)), g(bool(val_of(a)), bool(val_of(b))))
    return np.frompyfunc(h, 2, 1)


_LAND = _lg(n_and, lambda a, b: a and b)
_LOR = _lg(n_or, lambda a, b: a or b)
_LXOR = _lg(lambda a, b: n_not(n_eq(a, b)), lambda a, b: a != b)


def veclogic(f, a, b):
    F = {n_and: _LAND, n_or: _LOR}.get(f, _LXOR)
    return _unbox(F(_box(a)[0], _box(b)[0]), "b")


def _lnot(a):
    if is_sym(a):
        return wrap(n_not(truth(a)), not bool(a.v))
    return np.bool_(not a)


_F1 = {}


def _s1(name, a):
    if type(a) in _SYMT:
        return unop(name, a)
    if name == "neg":
        return -a
    f = {"abs": np.abs, "rint": np.rint, "trunc": np.trunc, "sign": np.sign, "square": np.square, "floor": np.floor, "ceil": np.ceil,
         "reciprocal": lambda v: np.float64(1) / v}.get(name) or core._UN[name]
    with np.errstate(all="ignore"):
        return f(a)


for _n in list(core._UN) + ["neg", "abs", "rint", "trunc", "sign", "square", "floor", "ceil", "reciprocal"]:
    _F1[_n] = np.frompyfunc(functools.partial(_s1, _n), 1, 1)
_FNOT = np.frompyfunc(_lnot, 1, 1)

_U2 = {"add": "add", "subtract": "sub", "multiply": "mul", "divide": "div", "true_divide": "div", "floor_divide": "floordiv",
       "remainder": "mod", "mod": "mod", "power": "pow", "float_power": "pow", "maximum": "max", "minimum": "min", "fmax": "max", "fmin": "min",
       "less": "lt", "less_equal": "le", "greater": "gt", "greater_equal": "ge", "equal": "eq", "not_equal": "ne"}
_U1 = {"negative": "neg", "absolute": "abs", "fabs": "abs", "rint": "rint", "trunc": "trunc", "fix": "trunc", "sign": "sign", "square": "square",
       "floor": "floor", "ceil": "ceil", "reciprocal": "reciprocal"}
_U1.update({k: k for k in core._UN})


def apply_ufunc(name, inputs, kw=None):
    if name in _U2:
        a, b = inputs
        return vec2(_U2[name], a, b)
    if name in _U1:
        x, k = _box(inputs[0])
        nm = _U1[name]
        r = _F1[nm](x)
        return _unbox(r, k if nm in ("neg", "abs", "sign", "square") and k != "b" else ("i" if k == "b" else "f"))
    if name in ("logical_and", "bitwise_and", "logical_or", "bitwise_or", "logical_xor", "bitwise_xor"):
        a, b = inputs
        if name.startswith("bitwise"):
            ka, kb = _box(a)[1], _box(b)[1]
            if ka != "b" or kb != "b":
                ia, ib = concretize_ints(a), concretize_ints(b)
                return asarr(getattr(np, name)(ia, ib))
        F = _LAND if "and" in name else _LOR if name.endswith("_or") else _LXOR
        return _unbox(F(_box(a)[0], _box(b)[0]), "b")
    if name in ("logical_not", "invert"):
        x, k = _box(inputs[0])
        if name == "invert" and k == "i":
            return asarr(~concretize_ints(inputs[0]))
        return _unbox(_FNOT(x), "b")
    if name == "positive":
        return inputs[0]
    if name == "arctan2":
        return SHIM.arctan2(*inputs)
    if name in ("isnan", "isinf", "isfinite"):
        return getattr(SHIM, name)(inputs[0])
    if name == "matmul":
        return SHIM.matmul(*inputs)
    if name in ("exp2",):
        return vec2("pow", 2.0, inputs[0])
    if name == "hypot":
        a, b = inputs
        return SHIM.sqrt(vec2("add", vec2("mul", a, a), vec2("mul", b, b)))
    if name in ("deg2rad", "radians"):
        return vec2("mul", inputs[0], math.pi / 180)
    return opaque(getattr(np, name), inputs, kw or {})


def concretize_ints(x):
    if isinstance(x, SymArray):
        return pin_int(x)
    if is_sym(x):
        return int(x)
    return x


def opaque(f, args, kw):
    """Apply f to the shadows; symbolic inputs give fresh, unconstrained outputs."""
    sym = has_sym(list(args)) or has_sym(list(kw.values()))
    res = f(*[concrete(a) for a in args], **{k: concrete(v) for k, v in kw.items()})
    return lift(res, sym, getattr(f, "__name__", "f"))


def lift(res, sym, name):
    if isinstance(res, tuple):
        t = tuple(lift(r, sym, name) for r in res)
        if hasattr(res, "_fields"):
            return type(res)(*t)
        return t
    if isinstance(res, list):
        return [lift(r, sym, name) for r in res]
    if isinstance(res, np.ndarray):
        if res.dtype.kind == "c":
            return res
        a = asarr(res)
        if a is None or not sym or core.CUR is None:
            return a if a is not None else res
        if a.kind == "f":
            flat = [opq(e, name) for e in a.view(np.ndarray).ravel().tolist()]
            r = np.empty(len(flat), object)
            r[:] = flat
            r = r.reshape(a.shape).view(SymArray)
            r.kind = "f"
            return r
        core.CUR.note_concretized("opaque:" + name)
        return a
    if sym and core.CUR is not None:
        if isinstance(res, (float, np.floating)):
            return opq(res, name)
        core.CUR.note_concretized("opaque:" + name)
    return res


def opq(v, name, lo=-math.inf, hi=math.inf):
    if core._nonfinite(v):
        core.CUR.note_concretized("opaque-nonfinite:" + name)
        return np.float64(v)
    nm = f"opq:{name}#{next(core.CUR.opaque)}"
    core.CUR.values[nm] = float(v)
    core.CUR.domain[nm] = ("R", lo, hi)
    return SymReal(core.var(nm, "R", lo, hi), float(v))


def round_scalar(x, nd=0):
    if not is_sym(x):
        return np.round(x, nd)
    if x.n.sort == "I":
        return x
    if nd == 0:
        return unop("rint", x)
    s = float(10 ** nd)
    r = core._real(core.n_rint(core.n_mul(x.n, const(s))))
    return wrap(core.n_div(r, const(s)), float(np.round(x.v, nd)))


# --------------------------------------------------------------------------------------

def _axis_apply(a, axis, f, keepdims=False, kind=None):
    """f: list of scalars -> scalar, along axis (None = all, tuple allowed)"""
    a_, k = _box(a)
    kind = kind or k
    if axis is None:
        r = f(a_.ravel().tolist())
        if keepdims:
            o = np.empty((1,) * a_.ndim, object)
            o[...] = r
            return _unbox(o, kind)
        return r
    if isinstance(axis, tuple):
        if len(axis) == a_.ndim:
            return _axis_apply(a, None, f, keepdims, kind)
        axis = axis[0]
    axis = int(axis)
    if a_.ndim == 0 and axis in (0, -1):
        return f(a_.ravel().tolist())
    m = np.moveaxis(a_, axis, -1)
    shp = m.shape[:-1]
    flat = m.reshape(-1, m.shape[-1]) if m.size or m.shape[-1] else m.reshape(int(np.prod(shp)), 0)
    out = np.empty(flat.shape[0], object)
    for i in range(flat.shape[0]):
        out[i] = f(flat[i].tolist())
    out = out.reshape(shp)
    if out.ndim == 0:
        return out[()]
    if keepdims:
        out = np.expand_dims(out, axis)
    return _unbox(out, kind)


def fold(name, xs, init=None):
    it = iter(xs)
    acc = init if init is not None else next(it)
    for x in it:
        acc = _s2(name, acc, x)
    return acc


def _key(v):
    v = val_of(v)
    return (1, 0.0) if v != v else (0, v)


def order(xs):
    """Indices that sort xs (stable, NaN last); the order becomes part of the path condition."""
    idx = sorted(range(len(xs)), key=lambda i: _key(xs[i]))
    for p in range(len(idx) - 1):
        i, j = idx[p], idx[p + 1]
        a, b = xs[i], xs[j]
        if not (is_sym(a) or is_sym(b)):
            continue
        va, vb = val_of(a), val_of(b)
        if core._nonfinite(va) or core._nonfinite(vb):
            continue
        na, nb = node_of(a), node_of(b)
        if i < j:
            decide(core.n_le(na, nb), True, "order", p)
        else:
            decide(n_lt(na, nb), True, "order", p)
    return idx


def argext(xs, sign):
    if len(xs) == 0:
        raise ValueError("attempt to get argmax of an empty sequence")
    vs = [val_of(x) for x in xs]
    for i, v in enumerate(vs):
        if v != v:
            return np.int64(i)
    b = 0
    for i in range(1, len(xs)):
        if (vs[i] > vs[b]) if sign > 0 else (vs[i] < vs[b]):
            b = i
    for i in range(len(xs)):
        if i == b or not (is_sym(xs[i]) or is_sym(xs[b])):
            continue
        if core._nonfinite(vs[i]) or core._nonfinite(vs[b]):
            continue
        ni, nb = node_of(xs[i]), node_of(xs[b])
        if sign > 0:
            c = n_lt(ni, nb) if i < b else core.n_le(ni, nb)
        else:
            c = n_lt(nb, ni) if i < b else core.n_le(nb, ni)
        decide(c, True, "order", i)
    return np.int64(b)


def seqsum(xs):
    if not xs:
        return np.float64(0.0)
    xs = [cast_scalar(x, "i") if scalar_kind(x) == "b" else x for x in xs]
    return fold("add", xs)


class _Linalg:
    LinAlgError = np.linalg.LinAlgError

    def norm(self, x, ord=None, axis=None, keepdims=False):
        a = asarr(x)
        if not has_sym(a):
            r = np.linalg.norm(concrete(a), ord=ord, axis=axis, keepdims=keepdims)
            return asarr(r) if isinstance(r, np.ndarray) else r
        if ord is None or ord == 2 and (a.ndim == 1 or axis is not None):
            def f(xs):
                xs = [cast_scalar(x, "f") for x in xs]
                s = seqsum([_s1("square", x) for x in xs])
                return _s1("sqrt", s)
            return _axis_apply(a, axis, f, keepdims, "f")
        if ord == 1 and a.ndim == 1:
            return SHIM.sum(SHIM.abs(a))
        return opaque(np.linalg.norm, (x,), dict(ord=ord, axis=axis, keepdims=keepdims))

    def __getattr__(self, name):
        f = getattr(np.linalg, name)
        if not callable(f) or isinstance(f, type):
            return f
        return lambda *a, **k: opaque(f, a, k)


class Shim:
    """stands for the module `np`"""

    def __init__(self):
        self.linalg = _Linalg()
        self.random = None       # set by rng

    # -- fall back
    def __getattr__(self, name):
        if name == "abs":
            return self.absolute
        obj = getattr(np, name)          # AttributeError as numpy would
        if name in _U2 or name in _U1 or name in ("logical_and", "logical_or", "logical_not", "logical_xor", "invert", "exp2", "hypot",
                                                   "bitwise_and", "bitwise_or", "bitwise_xor", "radians", "deg2rad"):
            def uf(*args, out=None, **kw):
                if not builtins.any(is_sym(a) or isinstance(a, (SymArray, list, tuple, np.ndarray)) for a in args):
                    with np.errstate(all="ignore"):
                        return obj(*args)
                r = apply_ufunc(name, args)
                if out is not None:
                    out = out[0] if isinstance(out, tuple) else out
                    out[...] = r
                    return out
                return r
            uf.__name__ = name
            if name in ("add", "multiply", "maximum", "minimum", "logical_and", "logical_or"):
                red = {"add": self.sum, "multiply": self.prod, "maximum": self.max, "minimum": self.min,
                       "logical_and": self.all, "logical_or": self.any}[name]
                uf.reduce = lambda a, axis=0, **k: red(a, axis=axis)
            self.__dict__[name] = uf
            return uf
        if callable(obj) and not isinstance(obj, type):
            def f(*args, **kw):
                return opaque(obj, args, kw)
            f.__name__ = name
            self.__dict__[name] = f
            return f
        return obj

    # -- construction
    def array(self, x, dtype=None, copy=True, ndmin=0, **k):
        kd = kind_of_dtype(dtype)
        if kd == "O":
            return np.array(concrete(x) if dtype is not object else x, dtype=dtype)
        r = asarr(x, kd)
        if r is None:
            if dtype is not None:
                return np.array(x, dtype=dtype)
            return np.array(x)
        if r is x or (isinstance(x, np.ndarray) and np.shares_memory(r, x)):
            r = r.copy()
        while r.ndim < ndmin:
            r = r.reshape((1,) + r.shape)
        return r

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, SymArray) and kind_of_dtype(dtype) in (None, x.kind):
            return x
        return self.array(x, dtype=dtype)
    asanyarray = asarray
    ascontiguousarray = asarray

    def copy(self, x, **k):
        return self.array(x)

    def _full(self, shape, v, kind):
        if is_sym(shape):
            shape = shape.__index__()
        elif isinstance(shape, (tuple, list)):
            shape = tuple(int(s) for s in shape)
        elif isinstance(shape, SymArray):
            shape = tuple(int(s) for s in shape.tolist())
        r = np.empty(shape, object)
        if is_scalar(v):
            r.fill(cast_scalar(v, kind))
            r = r.view(SymArray)
            r.kind = kind
        else:
            r = r.view(SymArray)
            r.kind = kind
            r[...] = v
        return r

    def zeros(self, shape, dtype=None, **k):
        kd = kind_of_dtype(dtype) or "f"
        if kd == "O":
            return np.zeros(shape, dtype)
        return self._full(shape, 0, kd)

    def ones(self, shape, dtype=None, **k):
        kd = kind_of_dtype(dtype) or "f"
        if kd == "O":
            return np.ones(shape, dtype)
        return self._full(shape, 1, kd)

    def empty(self, shape, dtype=None, **k):
        if kind_of_dtype(dtype) == "O":
            return np.empty(shape, dtype)
        return self.zeros(shape, dtype)

    def full(self, shape, fill_value, dtype=None, **k):
        kd = kind_of_dtype(dtype)
        if kd is None:
            kd = scalar_kind(fill_value) if is_scalar(fill_value) else asarr(fill_value).kind
        if kd == "O" or kd is None:
            return np.full(shape, fill_value, dtype)
        return self._full(shape, fill_value, kd)

    def zeros_like(self, a, dtype=None, **k):
        a = asarr(a)
        return self._full(a.shape, 0, kind_of_dtype(dtype) or a.kind)

    def ones_like(self, a, dtype=None, **k):
        a = asarr(a)
        return self._full(a.shape, 1, kind_of_dtype(dtype) or a.kind)

    def empty_like(self, a, dtype=None, **k):
        return self.zeros_like(a, dtype)

    def full_like(self, a, v, dtype=None, **k):
        a = asarr(a)
        return self._full(a.shape, v, kind_of_dtype(dtype) or a.kind)

    def eye(self, *a, **k):
        return asarr(np.eye(*[int(x) for x in a], **k))

    def identity(self, n, **k):
        return asarr(np.identity(int(n)))

    def arange(self, *a, **k):
        if builtins.any(is_sym(x) for x in a):
            a = [int(x) if type(x) is SymInt else concrete(x) for x in a]
            core.CUR.note_concretized("arange")
        return np.arange(*a, **k)

    def linspace(self, a, b, num=50, **k):
        num = int(num)
        if not has_sym(a) and not has_sym(b):
            return asarr(np.linspace(concrete(a), concrete(b), num, **k))
        d = num - 1 if k.get("endpoint", True) else num
        return asarr([a + (b - a) * (i / d) for i in range(num)])

    def isscalar(self, x):
        return is_sym(x) or np.isscalar(x)

    def shape(self, x):
        return asarr(x).shape if not is_sym(x) else ()

    def size(self, x, axis=None):
        a = asarr(x)
        return a.size if axis is None else a.shape[axis]

    def ndim(self, x):
        return 0 if is_sym(x) else asarr(x).ndim

    # -- shape manipulation (structure only)
    def _struct(self, name, seq, *args, **kw):
        arrs = [asarr(s) for s in seq]
        if builtins.any(a is None for a in arrs):
            return getattr(np, name)(seq, *args, **kw)
        k = max((a.kind for a in arrs), key=_K.get)
        kw.pop("dtype", None)
        r = getattr(np, name)([cast(a, k).view(np.ndarray) for a in arrs], *args, **kw)
        return _unbox(r, k)

    def concatenate(self, seq, axis=0, **k): return self._struct("concatenate", list(seq), axis)
    def stack(self, seq, axis=0, **k): return self._struct("stack", list(seq), axis)
    def vstack(self, seq, **k): return self._struct("vstack", list(seq))
    def hstack(self, seq, **k): return self._struct("hstack", list(seq))
    def column_stack(self, seq): return self._struct("column_stack", list(seq))

    def append(self, a, b, axis=None):
        if axis is None:
            a, b = asarr(a), asarr(b)
            return self.concatenate([a.ravel(), b.ravel()])
        return self.concatenate([a, b], axis)

    def _one(self, name, x, *args, **kw):
        a = asarr(x)
        if a is None:
            return getattr(np, name)(x, *args, **kw)
        r = getattr(np, name)(a.view(np.ndarray), *[concretize_ints(v) if not isinstance(v, (list, tuple)) else v for v in args], **kw)
        if isinstance(r, list):
            return [_unbox(y, a.kind) for y in r]
        return _unbox(r, a.kind)

    def reshape(self, x, *a, **k): return self._one("reshape", x, *a, **k)
    def ravel(self, x, *a, **k): return self._one("ravel", x)
    def transpose(self, x, *a): return self._one("transpose", x, *a)
    def tile(self, x, reps): return self._one("tile", x, reps)
    def repeat(self, x, n, axis=None): return self._one("repeat", x, n, axis=axis)
    def squeeze(self, x, axis=None): return self._one("squeeze", x, axis=axis)
    def expand_dims(self, x, axis): return self._one("expand_dims", x, axis)
    def swapaxes(self, x, a, b): return self._one("swapaxes", x, a, b)
    def moveaxis(self, x, a, b): return self._one("moveaxis", x, a, b)
    def atleast_1d(self, x): return self._one("atleast_1d", x)
    def atleast_2d(self, x): return self._one("atleast_2d", x)
    def flip(self, x, axis=None): return self._one("flip", x, axis)
    def fliplr(self, x): return self._one("fliplr", x)
    def flipud(self, x): return self._one("flipud", x)
    def roll(self, x, s, axis=None): return self._one("roll", x, s, axis=axis)
    def broadcast_to(self, x, shape, **k): return self._one("broadcast_to", x, shape)
    def array_split(self, x, n, axis=0): return self._one("array_split", x, n, axis=axis)
    def split(self, x, n, axis=0): return self._one("split", x, n, axis=axis)
    def tril(self, x, k=0): return self._mulmask(x, np.tril, k)
    def triu(self, x, k=0): return self._mulmask(x, np.triu, k)

    def _mulmask(self, x, f, k):
        a = asarr(x).copy()
        m = f(np.ones(a.shape), k) == 0
        a[m] = 0
        return a

    def diag(self, x, k=0):
        a = asarr(x)
        if a is None:
            return np.diag(x, k)
        if a.ndim == 2:
            return self._one("diag", x, k)
        n = len(a) + abs(k)
        r = self._full((n, n), 0, a.kind)
        for i in range(len(a)):
            r[i - min(k, 0), i + max(k, 0)] = a[i]
        return r

    def fill_diagonal(self, a, v, **k):
        for i in range(builtins.min(a.shape)):
            a[i, i] = v

    def delete(self, x, obj, axis=None):
        return self._one("delete", x, norm_key1(obj) if not isinstance(obj, slice) else obj, axis=axis)

    def insert(self, x, obj, v, axis=None):
        a = asarr(x)
        if axis in (None, 0) and a.ndim == 1 and is_scalar(v):
            i = int(obj)
            return self.concatenate([a[:i], asarr([v], a.kind), a[i:]])
        return opaque(np.insert, (x, obj, v), dict(axis=axis))

    def take(self, x, idx, axis=None, **k):
        a = asarr(x)
        i = norm_key1(idx)
        return a.ravel()[i] if axis is None else _unbox(np.take(a.view(np.ndarray), i, axis=axis), a.kind)

    def meshgrid(self, *xs, **k):
        return [asarr(r) for r in np.meshgrid(*[asarr(x).view(np.ndarray) for x in xs], **k)]

    def shares_memory(self, a, b):
        return np.shares_memory(*[x.view(np.ndarray) if isinstance(x, np.ndarray) else x for x in (a, b)])
    may_share_memory = shares_memory

    # -- reductions
    def sum(self, x, axis=None, dtype=None, out=None, keepdims=False, **k):
        if not isinstance(x, (list, tuple, np.ndarray)) and not is_sym(x) and not np.isscalar(x):
            x = list(x)
        a = asarr(x)
        return _axis_apply(a, axis, (lambda xs: seqsum(xs) if xs else cast_scalar(0, "i" if a.kind == "b" else a.kind)),
                           keepdims, "i" if a.kind == "b" else a.kind)

    def prod(self, x, axis=None, **k):
        return _axis_apply(x, axis, lambda xs: fold("mul", xs) if xs else np.float64(1.0))

    def mean(self, x, axis=None, dtype=None, out=None, keepdims=False, **k):
        def f(xs):
            if not xs:
                return np.float64("nan")
            return _s2("div", cast_scalar(seqsum(xs), "f"), np.float64(len(xs)))
        return _axis_apply(x, axis, f, keepdims, "f")

    def average(self, x, axis=None, weights=None, **k):
        if weights is None:
            return self.mean(x, axis=axis)
        a, w = asarr(x), asarr(weights)
        if a.ndim == 1:
            return self.sum(a * w) / self.sum(w)
        return opaque(np.average, (x,), dict(axis=axis, weights=weights))

    def var(self, x, axis=None, ddof=0, keepdims=False, **k):
        def f(xs):
            if not xs:
                return np.float64("nan")
            m = _s2("div", cast_scalar(seqsum(xs), "f"), np.float64(len(xs)))
            s = seqsum([_s1("square", _s2("sub", x, m)) for x in xs])
            return _s2("div", s, np.float64(len(xs) - ddof))
        return _axis_apply(x, axis, f, keepdims, "f")

    def std(self, x, axis=None, ddof=0, keepdims=False, **k):
        v = self.var(x, axis=axis, ddof=ddof, keepdims=keepdims)
        return self.sqrt(v) if isinstance(v, np.ndarray) else _s1("sqrt", v)

    def max(self, x, axis=None, out=None, keepdims=False, **k):
        def f(xs):
            if not xs:
                raise ValueError("zero-size array to reduction operation maximum which has no identity")
            return fold("max", xs)
        return _axis_apply(x, axis, f, keepdims)
    amax = max
    nanmax = max

    def min(self, x, axis=None, out=None, keepdims=False, **k):
        def f(xs):
            if not xs:
                raise ValueError("zero-size array to reduction operation minimum which has no identity")
            return fold("min", xs)
        return _axis_apply(x, axis, f, keepdims)
    amin = min
    nanmin = min

    def ptp(self, x, axis=None, **k):
        return _s2v("sub", self.max(x, axis=axis), self.min(x, axis=axis))

    def any(self, x, axis=None, **k):
        def f(xs):
            n, v = FALSE_(), False
            for x in xs:
                n = n_or(n, truth(x))
                v = v or bool(val_of(x))
            return wrap(n, v)
        return _axis_apply(x, axis, f, kind="b")

    def all(self, x, axis=None, **k):
        def f(xs):
            n, v = TRUE_(), True
            for x in xs:
                n = n_and(n, truth(x))
                v = v and bool(val_of(x))
            return wrap(n, v)
        return _axis_apply(x, axis, f, kind="b")

    def count_nonzero(self, x, axis=None, **k):
        return _axis_apply(x, axis, lambda xs: seqsum([cast_scalar(cast_scalar(e, "b"), "i") for e in xs]) if xs else np.int64(0), kind="i")

    def median(self, x, axis=None, **k):
        exact = core.CUR is not None and core.CUR.opts.get("exact_median")

        def f(xs):
            if not builtins.any(is_sym(e) for e in xs):
                return np.median(np.array(xs, dtype=float))
            if not exact:
                lo = builtins.min(core._num(node_of(e)).lo if not core._nonfinite(val_of(e)) else -math.inf for e in xs)
                hi = builtins.max(core._num(node_of(e)).hi if not core._nonfinite(val_of(e)) else math.inf for e in xs)
                return opq(np.median(np.array([val_of(e) for e in xs], float)), "median", lo, hi)
            ys = list(xs)
            n = len(ys)
            for i in range(n):                       # sorting network
                for j in range(n - 1 - i):
                    a, b = ys[j], ys[j + 1]
                    ys[j], ys[j + 1] = _s2("min", a, b), _s2("max", a, b)
            if n % 2:
                return ys[n // 2]
            return _s2("div", _s2("add", ys[n // 2 - 1], ys[n // 2]), np.float64(2.0))
        return _axis_apply(x, axis, f, kind="f")

    def percentile(self, x, q, axis=None, **k):
        a = asarr(x)
        if not has_sym(a):
            return np.percentile(concrete(a), concrete(q), axis=axis, **k)
        return opaque(np.percentile, (x, q), dict(axis=axis, **k))

    def argmin(self, x, axis=None, **k):
        return _axis_apply(x, axis, lambda xs: argext(xs, -1), kind="i")

    def argmax(self, x, axis=None, **k):
        return _axis_apply(x, axis, lambda xs: argext(xs, 1), kind="i")

    def argsort(self, x, axis=-1, **k):
        a = asarr(x)
        if a is None:
            return np.argsort(x, axis=axis)
        if axis is None:
            return np.array(order(a.view(np.ndarray).ravel().tolist()), dtype=np.int64)
        if a.ndim == 1:
            return np.array(order(a.view(np.ndarray).tolist()), dtype=np.int64)
        m = np.moveaxis(a.view(np.ndarray), axis, -1)
        out = np.empty(m.shape, np.int64)
        for i in np.ndindex(m.shape[:-1]):
            out[i] = order(m[i].tolist())
        return np.moveaxis(out, -1, axis)

    def lexsort(self, *a, **k):
        return opaque(np.lexsort, a, k)

    def argpartition(self, x, kth, axis=-1, **k):
        return self.argsort(x, axis)

    def sort(self, x, axis=-1, **k):
        a = asarr(x)
        if axis is None:
            a, axis = a.ravel(), -1
        if a.ndim == 1:
            return a[np.array(order(a.view(np.ndarray).tolist()), dtype=np.int64)]
        i = self.argsort(a, axis)
        return _unbox(np.take_along_axis(a.view(np.ndarray), i, axis), a.kind)

    def cumsum(self, x, axis=None, **k):
        a = asarr(x)
        if axis is None:
            a, axis = a.ravel(), 0
        r = a.copy()
        m = np.moveaxis(r.view(np.ndarray), axis, 0)
        for i in range(1, m.shape[0]):
            m[i] = _s2("add", m[i - 1], m[i]) if m.ndim == 1 else _F2["add"](m[i - 1], m[i])
        return r

    def cumprod(self, x, axis=None, **k):
        a = asarr(x)
        if axis is None:
            a, axis = a.ravel(), 0
        r = a.copy()
        m = np.moveaxis(r.view(np.ndarray), axis, 0)
        for i in range(1, m.shape[0]):
            m[i] = _s2("mul", m[i - 1], m[i]) if m.ndim == 1 else _F2["mul"](m[i - 1], m[i])
        return r

    def diff(self, x, **k):
        a = asarr(x)
        return a[1:] - a[:-1]

    # -- selection
    def where(self, c, *xy):
        if not xy:
            return self.nonzero(c)
        x, y = xy
        cb, _ = _box(c)
        xb, kx = _box(x)
        yb, ky = _box(y)
        k = kx if _K[kx] >= _K[ky] else ky
        r = np.frompyfunc(lambda c_, a, b: cast_scalar(sel(c_, a, b), k), 3, 1)(cb, xb, yb)
        if not isinstance(r, np.ndarray):
            o = np.empty((), object)
            o[()] = r
            r = o
        return _unbox(r, k)

    def select(self, conds, choices, default=0):
        r = default
        for c, v in zip(reversed(list(conds)), reversed(list(choices))):
            r = self.where(c, v, r)
        return r

    def choose(self, *a, **k):
        return opaque(np.choose, a, k)

    def nonzero(self, c):
        a = asarr(c)
        m = np.array([bool(e) for e in a.view(np.ndarray).ravel().tolist()], bool).reshape(a.shape)
        return np.nonzero(m)

    def flatnonzero(self, c):
        return self.nonzero(asarr(c).ravel())[0]

    def argwhere(self, c):
        a = asarr(c)
        m = np.array([bool(e) for e in a.view(np.ndarray).ravel().tolist()], bool).reshape(a.shape)
        return np.argwhere(m)

    def clip(self, x, lo=None, hi=None, out=None, **k):
        lo = k.get("a_min", k.get("min", lo))
        hi = k.get("a_max", k.get("max", hi))
        r = x
        if lo is not None:
            r = _s2v("max", r, lo)
        if hi is not None:
            r = _s2v("min", r, hi)
        if r is x:
            r = asarr(x)
        if isinstance(r, SymArray) and not is_scalar(x) and r.kind == "f":
            pass
        if out is not None:
            out[...] = r
            return out
        return r

    def absolute(self, x, **k):
        if is_scalar(x) and not isinstance(x, np.ndarray):
            return unop("abs", x) if is_sym(x) else np.absolute(x)
        return apply_ufunc("absolute", (x,))

    def round(self, x, decimals=0, **k):
        if is_sym(x):
            return round_scalar(x, decimals)
        if np.isscalar(x):
            return np.round(x, decimals)
        a = asarr(x)
        r = np.frompyfunc(lambda e: round_scalar(e, decimals), 1, 1)(a.view(np.ndarray))
        return _unbox(r, a.kind)
    around = round
    round_ = round

    def sqrt(self, x, **k):
        if is_sym(x):
            return unop("sqrt", x)
        if np.isscalar(x):
            with np.errstate(all="ignore"):
                return np.sqrt(x)
        return apply_ufunc("sqrt", (x,))

    def arctan2(self, a, b):
        if not has_sym(a) and not has_sym(b):
            return lift(np.arctan2(concrete(a), concrete(b)), False, "arctan2")
        def f(p, q):
            if not is_sym(p) and not is_sym(q):
                return np.arctan2(p, q)
            return wrap(core.n_fun("arctan2", node_of(p), node_of(q)), np.arctan2(val_of(p), val_of(q)))
        return _unbox(np.frompyfunc(f, 2, 1)(_box(a)[0], _box(b)[0]), "f")

    def _cls(self, x, f):
        def g(e):
            return np.bool_(f(float(val_of(e)))) if not is_sym(e) else np.bool_(f(0.0))
        if is_scalar(x) and not isinstance(x, np.ndarray):
            return g(x)
        a = asarr(x)
        if a is None:
            return np.vectorize(f)(x)
        return _unbox(np.frompyfunc(g, 1, 1)(a.view(np.ndarray)), "b")

    def isnan(self, x, **k): return self._cls(x, math.isnan)
    def isinf(self, x, **k): return self._cls(x, math.isinf)
    def isfinite(self, x, **k): return self._cls(x, math.isfinite)

    def nan_to_num(self, x, copy=True, nan=0.0, posinf=None, neginf=None):
        def g(e):
            return e if is_sym(e) else np.nan_to_num(e, nan=nan, posinf=posinf, neginf=neginf)
        if is_scalar(x):
            return g(x)
        a = asarr(x)
        return _unbox(np.frompyfunc(g, 1, 1)(a.view(np.ndarray)), a.kind)

    def isclose(self, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        if not has_sym(a) and not has_sym(b):
            return np.isclose(concrete(a), concrete(b), rtol, atol)
        d = self.absolute(_s2v("sub", a, b))
        return _s2v("le", d, _s2v("add", atol, _s2v("mul", rtol, self.absolute(b))))

    def allclose(self, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        r = self.all(self.isclose(a, b, rtol, atol))
        return r if not is_sym(r) else SymBool(r.n, r.v, True)

    def array_equal(self, a, b, **k):
        a, b = asarr(a), asarr(b)
        if a.shape != b.shape:
            return False
        return self.all(vec2("eq", a, b))

    # -- products
    def dot(self, a, b, **k):
        a, b = asarr(a), asarr(b)
        if a.ndim == 0 or b.ndim == 0:
            return vec2("mul", a, b)
        if not has_sym(a) and not has_sym(b):
            r = np.dot(concrete(a), concrete(b))
            return asarr(r) if isinstance(r, np.ndarray) else r
        if a.ndim == 1 and b.ndim == 1:
            if a.shape != b.shape:
                raise ValueError(f"shapes {a.shape} and {b.shape} not aligned")
            return seqsum([_s2("mul", x, y) for x, y in zip(a.view(np.ndarray).tolist(), b.view(np.ndarray).tolist())])
        return self.matmul(a, b)

    def matmul(self, a, b, **k):
        a, b = asarr(a), asarr(b)
        if a.ndim == 1 and b.ndim == 1:
            return self.dot(a, b)
        A = a.reshape(1, -1) if a.ndim == 1 else a
        B = b.reshape(-1, 1) if b.ndim == 1 else b
        if A.ndim > 2 or B.ndim > 2:
            return opaque(np.matmul, (a, b), {})
        if A.shape[1] != B.shape[0]:
            raise ValueError(f"matmul: Input operand 1 has a mismatch in its core dimension 0 ({A.shape},{B.shape})")
        Ad, Bd = A.view(np.ndarray), B.view(np.ndarray)
        out = np.empty((A.shape[0], B.shape[1]), object)
        for i in range(A.shape[0]):
            for j in range(B.shape[1]):
                out[i, j] = seqsum([_s2("mul", x, y) for x, y in zip(Ad[i].tolist(), Bd[:, j].tolist())])
        if a.ndim == 1:
            out = out[0]
        elif b.ndim == 1:
            out = out[:, 0]
        if out.ndim == 0:
            return out[()]
        return _unbox(out, a.kind if _K[a.kind] >= _K[b.kind] else b.kind)

    inner = dot

    def outer(self, a, b, **k):
        a, b = asarr(a).ravel(), asarr(b).ravel()
        return vec2("mul", a.reshape(-1, 1), b.reshape(1, -1))

    def cross(self, *a, **k):
        return opaque(np.cross, a, k)

    # -- sets (concretise)
    def unique(self, x, **k):
        a = asarr(x)
        if a is None:
            return np.unique(x, **k)
        if a.kind == "i":
            return np.unique(pin_int(a), **k)
        if not has_sym(a):
            r = np.unique(concrete(a), **k)
            return r if isinstance(r, tuple) else asarr(r)
        if k.get("axis") is None and len(k) == 0:
            s = self.sort(a.ravel())
            out = [s[0]]
            for e in list(s)[1:]:
                if not bool(e == out[-1]):
                    out.append(e)
            return asarr(out)
        return opaque(np.unique, (x,), k)

    def setdiff1d(self, a, b, **k):
        f = lambda x: pin_int(asarr(x)) if asarr(x).kind == "i" else concrete(asarr(x))
        if has_sym(a) or has_sym(b):
            core.CUR.note_concretized("setdiff1d")
        return np.setdiff1d(f(a), f(b), **k)

    def isin(self, a, b, **k):
        f = lambda x: pin_int(asarr(x)) if asarr(x).kind == "i" else concrete(asarr(x))
        return np.isin(f(a), f(b), **k)

    def bincount(self, x, **k):
        return np.bincount(pin_int(asarr(x)), **k)

    def errstate(self, **k):
        return np.errstate(**k)

    def apply_along_axis(self, f, axis, x, *a, **k):
        arr = asarr(x)
        m = np.moveaxis(arr.view(np.ndarray), axis, -1)
        rs = []
        for i in np.ndindex(m.shape[:-1]):
            rs.append(f(_unbox(m[i], arr.kind), *a, **k))
        out = asarr(rs)
        return out

    def vectorize(self, f, **k):
        def g(*a):
            bs = [_box(x)[0] for x in a]
            return asarr(np.frompyfunc(f, len(bs), 1)(*bs))
        return g

    def float64(self, x=0.0):
        return cast_scalar(x, "f")

    def int64(self, x=0):
        return cast_scalar(x, "i")

    # dtype objects must stay types for isinstance / dtype=
    float64 = np.float64
    int64 = np.int64


def FALSE_():
    return core.FALSE


def TRUE_():
    return core.TRUE


def _s2v(name, a, b):
    if is_scalar(a) and is_scalar(b) and not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
        return _s2(name, a, b) if (is_sym(a) or is_sym(b)) else core._concrete(name, a, b, False)
    return vec2(name, a, b)


SHIM = Shim()
