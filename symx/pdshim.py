"""Stand-in for the part of pandas that mealpy's tuner and multitask use, over symbolic numbers.  Written files are kept in FILES."""
import math
import os
import numpy as np
from . import core
from .core import is_sym, val_of


def isnan(x):
    return not is_sym(x) and isinstance(x, (float, np.floating)) and x != x


class Series:
    def __init__(self, xs, name=None, index=None):
        self.xs = list(xs)
        self.name = name
        self.index = list(range(len(self.xs))) if index is None else list(index)

    def _new(self, xs):
        return Series(xs, self.name, self.index)

    @property
    def values(self):
        r = np.empty(len(self.xs), dtype=object)
        for i, x in enumerate(self.xs):
            r[i] = x
        return r

    def to_numpy(self):
        return self.values

    def tolist(self):
        return list(self.xs)
    to_list = tolist

    def __len__(self):
        return len(self.xs)

    def __iter__(self):
        return iter(self.xs)

    def __getitem__(self, i):
        if isinstance(i, Series):
            keep = [j for j, b in enumerate(i.xs) if bool(b)]
            return Series([self.xs[j] for j in keep], self.name, [self.index[j] for j in keep])
        return self.xs[self.index.index(i)]

    @property
    def iloc(self):
        me = self

        class L:
            def __getitem__(self, i):
                return me.xs[int(i)]
        return L()

    def _cmp(self, o, f):
        os = o.xs if isinstance(o, Series) else [o] * len(self.xs)
        return self._new([f(a, b) for a, b in zip(self.xs, os)])

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __and__(self, o): return self._cmp(o, lambda a, b: bool(a) and bool(b))
    def __or__(self, o): return self._cmp(o, lambda a, b: bool(a) or bool(b))
    def __add__(self, o): return self._cmp(o, lambda a, b: a + b)
    def __sub__(self, o): return self._cmp(o, lambda a, b: a - b)
    def __mul__(self, o): return self._cmp(o, lambda a, b: a * b)
    def __neg__(self): return self._new([-a for a in self.xs])
    __hash__ = None

    def _extreme(self, less):
        xs = [x for x in self.xs if not isnan(x)]
        if not xs:
            return float("nan")
        r = xs[0]
        for x in xs[1:]:
            if less(x, r):
                r = x
        return r

    def min(self, **k): return self._extreme(lambda a, b: a < b)
    def max(self, **k): return self._extreme(lambda a, b: a > b)

    def _idx(self, less):
        b = None
        for i, x in enumerate(self.xs):
            if not isnan(x) and (b is None or less(x, self.xs[b])):
                b = i
        return self.index[b]

    def idxmin(self, **k): return self._idx(lambda a, b: a < b)
    def idxmax(self, **k): return self._idx(lambda a, b: a > b)
    def argmin(self, **k): return self.index.index(self.idxmin())
    def argmax(self, **k): return self.index.index(self.idxmax())

    def mean(self, **k):
        return mean(self.xs)

    def std(self, ddof=1, **k):
        return std(self.xs, ddof)

    def rank(self, method="average", ascending=True, **k):
        n = len(self.xs)
        out = [float("nan")] * n
        idx = [i for i in range(n) if not isnan(self.xs[i])]
        less = [[False] * n for _ in range(n)]
        for a in idx:
            for b in idx:
                if a < b:
                    x, y = self.xs[a], self.xs[b]
                    if bool(x < y):
                        less[a][b] = True
                    elif bool(x == y) or isinstance(x, tuple) and str(x) == str(y):
                        pass
                    else:
                        less[b][a] = True
        if not ascending:
            less = [list(r) for r in zip(*less)]
        for a in idx:
            lt = sum(less[b][a] for b in idx)
            eq = sum(1 for b in idx if b != a and not less[a][b] and not less[b][a])
            if method == "average":
                out[a] = lt + (eq + 2) / 2
            elif method == "min":
                out[a] = lt + 1.0
            elif method == "max":
                out[a] = lt + eq + 1.0
            elif method == "first":
                out[a] = 1.0 + lt + sum(1 for b in idx if b < a and not less[a][b] and not less[b][a])
            elif method == "dense":
                # distinct smaller values
                sm = [b for b in idx if less[b][a]]
                rep = [b for b in sm if not any(c < b and not less[b][c] and not less[c][b] for c in sm)]
                out[a] = len(rep) + 1.0
            else:
                raise NotImplementedError(method)
        return self._new(out)

    def apply(self, f, **k):
        return self._new([f(x) for x in self.xs])


def mean(xs):
    t = xs[0]
    for x in xs[1:]:
        t = t + x
    return t / float(len(xs))


def std(xs, ddof=1):
    n = len(xs)
    if n - ddof <= 0:
        return float("nan")
    if n == 2 and ddof == 1:
        return abs(xs[0] - xs[1]) * math.sqrt(0.5)
    m = mean(xs)
    t = sum((x - m) * (x - m) for x in xs) / float(n - ddof)
    return t ** 0.5 if is_sym(t) else math.sqrt(t)


class Index(list):
    def difference(self, other, sort=None):
        r = [c for c in self if c not in list(other)]
        return Index(r if sort is False else sorted(r))

    def tolist(self):
        return list(self)
    to_list = tolist

    @property
    def values(self):
        r = np.empty(len(self), dtype=object)
        r[:] = list(self)
        return r


class DataFrame:
    def __init__(self, data=None, index=None, columns=None):
        self.cols = {}
        if isinstance(data, dict):
            n = {len(v) for v in data.values()}
            if len(n) > 1:
                raise ValueError("All arrays must be of the same length")
            for k, v in data.items():
                self.cols[k] = list(v)
            self.n = n.pop() if n else 0
        elif isinstance(data, (list, tuple)):
            keys = []
            for r in data:
                for k in r:
                    if k not in keys:
                        keys.append(k)
            self.n = len(data)
            for k in keys:
                self.cols[k] = [r.get(k, float("nan")) for r in data]
        elif data is None:
            self.n = 0
        else:
            raise NotImplementedError
        self.index = list(range(self.n))
        if columns is not None:
            self.cols = {c: self.cols[c] for c in columns}

    @property
    def columns(self):
        return Index(self.cols)

    def groupby(self, by, **k):
        one = not isinstance(by, list)
        keys = [by] if one else by
        if not keys:
            raise ValueError("No group keys passed!")
        groups = {}
        for j in range(self.n):
            groups.setdefault(tuple(self.cols[c][j] for c in keys), []).append(j)
        names = sorted(groups) if k.get("sort", True) else list(groups)
        return [(g[0] if one else g, self._rows(groups[g])) for g in names]

    def iterrows(self):
        return [(i, Series([v[j] for v in self.cols.values()], i, list(self.cols))) for j, i in enumerate(self.index)]

    def itertuples(self, index=True, name=None):
        return [((i,) if index else ()) + tuple(v[j] for v in self.cols.values()) for j, i in enumerate(self.index)]

    def items(self):
        return [(c, self[c]) for c in self.cols]

    @property
    def values(self):
        r = np.empty((self.n, len(self.cols)), dtype=object)
        for c, v in enumerate(self.cols.values()):
            for j in range(self.n):
                r[j, c] = v[j]
        return r

    def to_numpy(self, *a, **k):
        return self.values

    @property
    def T(self):
        r = DataFrame()
        r.n, r.index = len(self.cols), list(self.cols)
        r.cols = {i: [v[j] for v in self.cols.values()] for j, i in enumerate(self.index)}
        return r

    def transpose(self):
        return self.T

    def reset_index(self, *a, **k):
        r = self.copy()
        r.index = list(range(r.n))
        return r

    def set_index(self, c, **k):
        r = self.drop(c)
        r.index = list(self.cols[c])
        return r

    def plot(self, *a, **k):
        return PLOT[0](self, **k)

    @property
    def shape(self):
        return (self.n, len(self.cols))

    def __len__(self):
        return self.n

    def _rows(self, keep):
        r = DataFrame()
        r.n = len(keep)
        r.cols = {k: [v[j] for j in keep] for k, v in self.cols.items()}
        r.index = [self.index[j] for j in keep]
        return r

    def __getitem__(self, k):
        if isinstance(k, Series):
            return self._rows([j for j, b in enumerate(k.xs) if bool(b)])
        if isinstance(k, list):
            r = DataFrame()
            r.n, r.index = self.n, list(self.index)
            r.cols = {c: list(self.cols[c]) for c in k}
            return r
        return Series(self.cols[k], k, self.index)

    def __setitem__(self, k, v):
        self.cols[k] = list(v) if isinstance(v, (Series, list, tuple, np.ndarray)) else [v] * self.n

    @property
    def loc(self):
        me = self

        class L:
            def __getitem__(self, i):
                if isinstance(i, tuple):
                    return me.cols[i[1]][me.index.index(i[0])]
                if isinstance(i, Series):
                    return me[i]
                return {k: v[me.index.index(i)] for k, v in me.cols.items()}
        return L()

    @property
    def iloc(self):
        me = self

        class L:
            def __getitem__(self, i):
                if isinstance(i, slice):
                    return me._rows(list(range(me.n))[i])
                return {k: v[int(i)] for k, v in me.cols.items()}
        return L()

    def _axis(self, f, axis):
        if axis != 1:
            return Series([f(v) for v in self.cols.values()], None, list(self.cols))
        return Series([f([v[j] for v in self.cols.values()]) for j in range(self.n)], None, self.index)

    def mean(self, axis=0, **k): return self._axis(mean, axis)
    def std(self, axis=0, ddof=1, **k): return self._axis(lambda x: std(x, ddof), axis)
    def min(self, axis=0, **k): return self._axis(lambda x: Series(x).min(), axis)
    def max(self, axis=0, **k): return self._axis(lambda x: Series(x).max(), axis)
    def apply(self, f, axis=0, **k): return self._axis(lambda x: f(x), axis)

    def drop(self, c=None, axis=1, columns=None, **k):
        c = columns if c is None else c
        return self[[x for x in self.cols if x not in (list(c) if isinstance(c, (list, tuple, Index)) else [c])]]

    def head(self, n=5):
        return self._rows(list(range(min(n, self.n))))

    def copy(self, *a, **k):
        return self._rows(list(range(self.n)))

    def _save(self, path, kind, index=False, header=True):
        cols = {k: list(v) for k, v in self.cols.items()}
        if index:
            cols = {"Unnamed: 0": list(self.index), **cols}
        if not header:
            cols = {f"without header {j}": v for j, v in enumerate(cols.values())}
        FILES[str(path)] = cols
        KINDS[str(path)] = kind
        if os.path.isdir(os.path.dirname(os.path.abspath(path))):
            with open(path, "w") as f:
                f.write(kind)

    def to_csv(self, path, header=True, index=True, **k): self._save(path, "csv", index, header)
    def to_json(self, path, **k): self._save(path, "json")
    def to_pickle(self, path, **k): self._save(path, "pickle")


FILES = {}
KINDS = {}
PLOT = [None]


class Module:
    DataFrame = DataFrame
    Series = Series


def extra(src):
    """replacements for patch.symbolic"""
    import pandas
    FILES.clear()
    KINDS.clear()
    return {"by_value": [(pandas, Module)]}
