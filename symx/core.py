"""Symbolic values for executing real Python code under z3.

Every symbolic value carries (a) a hash-consed expression node over the run's input
variables and (b) the concrete value ("shadow") that the real arithmetic produced for
the current input assignment.  Control flow follows the shadow; each branch that depended on
a symbolic value is recorded together with its condition node, so a finished run yields a path
condition whose satisfying assignments all follow the same path.  See explore.py.
"""
import math
import sys
import os
import numbers
import operator
import itertools
import numpy as np

INF = math.inf
_PKG = os.path.dirname(os.path.abspath(__file__))

# --------------------------------------------------------------------------------------
# nodes


class Node:
    __slots__ = ("id", "op", "args", "sort", "lo", "hi", "val", "vs", "__weakref__")

    def __repr__(self):
        return show(self)


_table = {}
_ids = itertools.count()
_varbits = {}


def reset():
    """Forget every node (between unrelated runs, to bound memory)."""
    _table.clear()
    _varbits.clear()
    VARS.clear()
    global TRUE, FALSE
    TRUE = mk("bconst", (), "B", val=True)
    FALSE = mk("bconst", (), "B", val=False)


VARS = {}      # name -> node


def mk(op, args, sort, lo=-INF, hi=INF, val=None):
    if op == "const":
        key = (op, sort, val, math.copysign(1.0, val) if val == 0 else 0)
    elif op == "var":
        key = (op, val, sort, lo, hi)
    elif op == "bconst":
        key = (op, val)
    else:
        key = (op, val, tuple(a.id for a in args))
    n = _table.get(key)
    if n is not None:
        return n
    n = Node()
    n.id = next(_ids)
    n.op, n.args, n.sort, n.lo, n.hi, n.val = op, args, sort, lo, hi, val
    if op == "var":
        b = _varbits.setdefault(val, len(_varbits))
        n.vs = 1 << b
    else:
        vs = 0
        for a in args:
            vs |= a.vs
        n.vs = vs
    _table[key] = n
    return n


TRUE = FALSE = None


def const(v):
    if isinstance(v, (bool, np.bool_)):
        return TRUE if v else FALSE
    if isinstance(v, (int, np.integer)):
        v = int(v)
        return mk("const", (), "I", v, v, v)
    v = float(v)
    if v != v or v in (INF, -INF):
        raise Poison(v)
    return mk("const", (), "R", v, v, v)


class Poison(Exception):
    """A non-finite constant cannot be a node; callers fall back to the concrete value."""


def var(name, sort, lo, hi):
    n = mk("var", (), sort, lo, hi, name)
    VARS[name] = n
    return n


def show(n, depth=6):
    if n.op in ("const", "bconst", "var"):
        return str(n.val)
    if depth == 0:
        return "…"
    return f"{n.op}({', '.join(show(a, depth - 1) for a in n.args)})"


def _num(a):
    """numeric view of a node"""
    if a.sort == "B":
        if a.op == "bconst":
            return const(1 if a.val else 0)
        return mk("b2i", (a,), "I", 0, 1)
    return a


def _real(a):
    a = _num(a)
    if a.sort == "I":
        if a.op == "const":
            return const(float(a.val))
        return mk("toreal", (a,), "R", a.lo, a.hi)
    return a


def _unify(a, b):
    a, b = _num(a), _num(b)
    if a.sort != b.sort:
        a, b = _real(a), _real(b)
    return a, b


def _iadd(x, y):
    r = x + y
    return r if r == r else (-INF if x == -INF or y == -INF else INF)


def _imul(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


def n_add(a, b):
    a, b = _unify(a, b)
    if a.op == "const" and b.op == "const":
        return const(a.val + b.val)
    if a.op == "const" and a.val == 0:
        return b
    if b.op == "const" and b.val == 0:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("add", (a, b), a.sort, _iadd(a.lo, b.lo), _iadd(a.hi, b.hi))


def n_neg(a):
    a = _num(a)
    if a.op == "const":
        return const(-a.val)
    if a.op == "neg":
        return a.args[0]
    return mk("neg", (a,), a.sort, -a.hi, -a.lo)


def n_sub(a, b):
    a, b = _unify(a, b)
    if a is b:
        return const(0) if a.sort == "I" else const(0.0)
    if a.op == "const" and b.op == "const":
        return const(a.val - b.val)
    if b.op == "const" and b.val == 0:
        return a
    lo, hi = a.lo - b.hi, a.hi - b.lo
    if lo != lo:
        lo = -INF
    if hi != hi:
        hi = INF
    return mk("sub", (a, b), a.sort, lo, hi)


def n_mul(a, b):
    a, b = _unify(a, b)
    if a.op == "neg" and b.op == "neg":
        a, b = a.args[0], b.args[0]
    if a.op == "const" and b.op == "const":
        return const(a.val * b.val)
    for x, y in ((a, b), (b, a)):
        if x.op == "const":
            if x.val == 0:
                return x
            if x.val == 1:
                return y
    if a is b:
        m = max(abs(a.lo), abs(a.hi))
        lo = 0.0 if a.lo <= 0 <= a.hi else min(a.lo * a.lo, a.hi * a.hi)
        return mk("mul", (a, a), a.sort, lo, m * m)
    if a.id > b.id:
        a, b = b, a
    c = [_imul(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
    return mk("mul", (a, b), a.sort, min(c), max(c))


def n_div(a, b):
    """real division; the caller has established b != 0"""
    a, b = _real(a), _real(b)
    if a.op == "const" and b.op == "const":
        return const(a.val / b.val)
    if b.op == "const":
        if b.val == 1:
            return a
        c = [a.lo / b.val, a.hi / b.val]
        return mk("div", (a, b), "R", min(c), max(c))
    if a.op == "const" and a.val == 0:
        return a
    if b.lo > 0 or b.hi < 0:
        inv = sorted(((0.0 if math.isinf(b.lo) else 1.0 / b.lo), (0.0 if math.isinf(b.hi) else 1.0 / b.hi)))
        c = [_imul(x, y) for x in (a.lo, a.hi) for y in inv]
        return mk("div", (a, b), "R", min(c), max(c))
    return mk("div", (a, b), "R")


def n_min(a, b):
    a, b = _unify(a, b)
    if a is b:
        return a
    if a.hi <= b.lo:
        return a
    if b.hi <= a.lo:
        return b
    if a.id > b.id:
        a, b = b, a
    return mk("min", (a, b), a.sort, min(a.lo, b.lo), min(a.hi, b.hi))


def n_max(a, b):
    a, b = _unify(a, b)
    if a is b:
        return a
    if a.lo >= b.hi:
        return a
    if b.lo >= a.hi:
        return b
    if a.id > b.id:
        a, b = b, a
    return mk("max", (a, b), a.sort, max(a.lo, b.lo), max(a.hi, b.hi))


def n_abs(a):
    a = _num(a)
    if a.op == "const":
        return const(abs(a.val))
    if a.lo >= 0:
        return a
    if a.hi <= 0:
        return n_neg(a)
    return mk("abs", (a,), a.sort, 0.0, max(-a.lo, a.hi))


def n_ite(c, a, b):
    if c.op == "bconst":
        return a if c.val else b
    if a is b:
        return a
    if a.sort == "B" and b.sort == "B":
        return n_or(n_and(c, a), n_and(n_not(c), b))
    a, b = _unify(a, b)
    if a is b:
        return a
    return mk("ite", (c, a, b), a.sort, min(a.lo, b.lo), max(a.hi, b.hi))


def _flr(x):
    return x if math.isinf(x) else math.floor(x)


def integral(a, depth=4):
    """a real-sorted node built from integers by ite only, as an Int node (or None)"""
    if a.sort == "I":
        return a
    if a.op == "toreal":
        return a.args[0]
    if a.op == "const" and a.val == math.floor(a.val):
        return const(int(a.val))
    if a.op == "neg":
        x = integral(a.args[0], depth - 1) if depth else None
        return n_neg(x) if x is not None else None
    if a.op == "ite" and depth:
        x = integral(a.args[1], depth - 1)
        y = integral(a.args[2], depth - 1) if x is not None else None
        return n_ite(a.args[0], x, y) if y is not None else None
    return None


def n_floor(a):
    """floor, as an Int node"""
    a = _num(a)
    x = integral(a)
    if x is not None:
        return x
    if a.op == "toreal":
        return a.args[0]
    if a.op == "const":
        return const(math.floor(a.val))
    return mk("floor", (a,), "I", _flr(a.lo), _flr(a.hi))


def n_ceil(a):
    return n_neg(n_floor(n_neg(a)))


def n_trunc(a):
    a = _num(a)
    x = integral(a)
    if x is not None:
        return x
    if a.lo >= 0:
        return n_floor(a)
    if a.hi <= 0:
        return n_ceil(a)
    return n_ite(n_lt(a, const(0.0)), n_ceil(a), n_floor(a))


def n_rint(a):
    a = _num(a)
    x = integral(a)
    if x is not None:
        return x
    if a.op == "toreal":
        return a.args[0]
    if a.op == "const":
        return const(round(a.val))
    f = lambda x: x if math.isinf(x) else round(x)
    return mk("rint", (a,), "I", f(a.lo), f(a.hi))


def n_mod(a, b):
    """Python/numpy floor-mod; b != 0 established"""
    a, b = _unify(a, b)
    if a.op == "const" and b.op == "const":
        return const(a.val % b.val)
    if a.sort == "I" and b.op == "const" and b.val > 0:
        return mk("imod", (a, b), "I", 0, b.val - 1)
    lo, hi = -INF, INF
    if b.op == "const":
        lo, hi = (0.0, b.val) if b.val > 0 else (b.val, 0.0)
    r = n_sub(a, n_mul(b, n_floordiv(a, b)))
    if r.op == "const":
        return r
    return mk("rangeof", (r,), r.sort, max(lo, r.lo), min(hi, r.hi))


def n_floordiv(a, b):
    a, b = _unify(a, b)
    if a.op == "const" and b.op == "const":
        return const(a.val // b.val)
    if a.sort == "I" and b.op == "const" and b.val > 0:
        return mk("idiv", (a, b), "I", _flr(a.lo / b.val), _flr(a.hi / b.val))
    fl = n_floor(n_div(a, b))
    return fl if a.sort == "I" else _real(fl)


_MONO = {"exp": math.exp, "sqrt": lambda x: math.sqrt(x) if x >= 0 else 0.0, "tanh": math.tanh,
         "arctan": math.atan, "erf": math.erf, "sinh": math.sinh, "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x),
         "log": lambda x: math.log(x) if x > 0 else -INF,
         "log2": lambda x: math.log2(x) if x > 0 else -INF,
         "log10": lambda x: math.log10(x) if x > 0 else -INF,
         "log1p": lambda x: math.log1p(x) if x > -1 else -INF, "expm1": math.expm1}
_RANGE = {"sin": (-1.0, 1.0), "cos": (-1.0, 1.0), "tan": (-INF, INF), "arccos": (0.0, math.pi), "arcsin": (-math.pi / 2, math.pi / 2),
          "cosh": (1.0, INF), "arctan2": (-math.pi, math.pi)}


def n_fun(name, *args):
    """a transcendental (uninterpreted to the solver except for its range / monotone bounds)"""
    args = tuple(_real(a) for a in args)
    lo, hi = -INF, INF
    if name in _MONO:
        f = _MONO[name]

        def g(x, d):
            try:
                return f(x)
            except (OverflowError, ValueError):
                return d
        a = args[0]
        lo, hi = g(a.lo, -INF), g(a.hi, INF)
        if name in ("exp",):
            lo = max(lo, 0.0)
        if a.lo == -INF:
            lo = {"exp": 0.0, "sqrt": 0.0, "tanh": -1.0, "erf": -1.0, "arctan": -math.pi / 2, "expm1": -1.0}.get(name, -INF)
        if a.hi == INF:
            hi = {"tanh": 1.0, "erf": 1.0, "arctan": math.pi / 2}.get(name, INF)
        # outward slack for rounding
        if lo not in (-INF, 0.0):
            lo -= abs(lo) * 1e-12
        if hi not in (INF, 0.0):
            hi += abs(hi) * 1e-12
    elif name in _RANGE:
        lo, hi = _RANGE[name]
    elif name == "pow":
        a, b = args
        if a.lo >= 0:
            lo = 0.0
            if b.op == "const":
                try:
                    c = [x ** b.val if not (x == 0 and b.val < 0) else INF for x in (a.lo, a.hi)]
                    lo, hi = min(c), max(c)
                except OverflowError:
                    pass
            elif a.hi <= 1 and b.lo >= 0:
                hi = 1.0
    return mk("fun", args, "R", lo, hi, name)


# booleans

def n_not(a):
    if a.op == "bconst":
        return FALSE if a.val else TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), "B")


def n_and(a, b):
    if a is b:
        return a
    for x, y in ((a, b), (b, a)):
        if x.op == "bconst":
            return y if x.val else FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("and", (a, b), "B")


def n_or(a, b):
    if a is b:
        return a
    for x, y in ((a, b), (b, a)):
        if x.op == "bconst":
            return TRUE if x.val else y
    if a.id > b.id:
        a, b = b, a
    return mk("or", (a, b), "B")


def n_lt(a, b):
    a, b = _unify(a, b)
    if a is b:
        return FALSE
    if a.op == "const" and b.op == "const":
        return TRUE if a.val < b.val else FALSE
    if a.hi < b.lo:
        return TRUE
    if a.lo >= b.hi:
        return FALSE
    return mk("lt", (a, b), "B")


def n_le(a, b):
    return n_not(n_lt(b, a))


def n_eq(a, b):
    if a.sort == "B" and b.sort == "B":
        if a is b:
            return TRUE
        if a.op == "bconst":
            return b if a.val else n_not(b)
        if b.op == "bconst":
            return a if b.val else n_not(a)
        return mk("iff", (a, b) if a.id < b.id else (b, a), "B")
    a, b = _unify(a, b)
    if a is b:
        return TRUE
    if a.op == "const" and b.op == "const":
        return TRUE if a.val == b.val else FALSE
    if a.hi < b.lo or b.hi < a.lo:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), "B")


reset()

# --------------------------------------------------------------------------------------
# the current run


class Run:
    """What one execution of the code under test records."""

    def __init__(self, assign=None, seed=0, opts=None):
        self.assign = dict(assign or {})     # name -> concrete value chosen by the solver
        self.seed = seed
        self.values = {}                     # name -> concrete value used
        self.domain = {}                     # name -> (sort, lo, hi)
        self.decisions = []                  # (site, cond node as taken [must hold], kind)
        self.assumes = []                    # nodes assumed (stub contracts)
        self.taken = {}                      # cond node id -> bool
        self.concretized = {}                # site -> count: symbolic value turned concrete without a decision
        self.functions = set()
        self.opts = opts or {}
        self.ops = 0
        self.opaque = itertools.count()
        self.limit = self.opts.get("max_decisions", 100000)

    def note_concretized(self, what):
        k = (site(), what)
        self.concretized[k] = self.concretized.get(k, 0) + 1


class PathLimit(BaseException):
    pass


CUR = None      # the active Run


def current():
    return CUR


def set_current(run):
    global CUR
    CUR = run


MEALPY_DIR = None   # set by patch


def site():
    """The innermost frame outside this package: (file, function, line, instruction)."""
    f = sys._getframe(1)
    fallback = None
    while f is not None:
        fn = f.f_code.co_filename
        if not fn.startswith(_PKG) and "numpy" not in fn and not fn.startswith("<__array"):
            if fallback is None:
                fallback = f
            if MEALPY_DIR is None or fn.startswith(MEALPY_DIR):
                return (os.path.basename(fn), f.f_code.co_name, f.f_lineno, f.f_lasti)
        f = f.f_back
    f = fallback
    if f is None:
        return ("?", "?", 0, 0)
    return (os.path.basename(f.f_code.co_filename), f.f_code.co_name, f.f_lineno, f.f_lasti)


def decide(node, shadow, kind="br", extra=None):
    """Record a branch on a boolean node; returns the shadow outcome."""
    shadow = bool(shadow)
    if node.op == "bconst":
        return node.val
    r = CUR
    if r is None:
        return shadow
    k = r.taken.get(node.id)
    if k is not None:
        return k
    neg = n_not(node)
    k = r.taken.get(neg.id)
    if k is not None:
        return not k
    r.taken[node.id] = shadow
    s = site()
    if extra is not None:
        s = s + (extra,)
    r.decisions.append((s, node if shadow else neg, kind, shadow))
    if len(r.decisions) > r.limit:
        raise PathLimit()
    return shadow


def assume(node):
    if node.op == "bconst":
        return
    CUR.assumes.append((len(CUR.decisions), node))


def fresh(name, sort, lo, hi, base):
    """An input variable.  `base()` gives its concrete value unless the solver chose one."""
    r = CUR
    if name in r.assign:
        v = r.assign[name]
    else:
        v = base()
    if sort == "I":
        v = int(v)
    elif sort == "R":
        v = float(v)
    if sort != "B":
        v = min(max(v, lo), hi)
    r.values[name] = v
    r.domain[name] = (sort, lo, hi)
    return var(name, sort, lo, hi), v


# --------------------------------------------------------------------------------------
# symbolic scalars

_npf = np.float64


def node_of(x):
    t = type(x)
    if t in (SymReal, SymInt, SymBool):
        return x.n
    return const(x)


def val_of(x):
    t = type(x)
    if t in (SymReal, SymInt, SymBool):
        return x.v
    return x


def is_sym(x):
    return type(x) in (SymReal, SymInt, SymBool)


def wrap(node, v, py=False):
    """Symbolic scalar for (node, shadow); constants come back concrete."""
    if node.op == "const":
        if node.sort == "I":
            return int(node.val) if py else np.int64(node.val)
        # keep the exactly computed float
        return float(v) if py else np.float64(v)
    if node.op == "bconst":
        return bool(node.val) if py else np.bool_(node.val)
    if node.sort == "B":
        return SymBool(node, bool(v), py)
    if node.sort == "I":
        return SymInt(node, int(v), py)
    v = float(v)
    if v != v or v in (INF, -INF):
        if CUR is not None:
            CUR.note_concretized("nonfinite")
        return v if py else np.float64(v)
    return SymReal(node, v, py)


def is_py(x):
    t = type(x)
    if t in (SymReal, SymInt, SymBool):
        return x.py
    return not isinstance(x, np.generic)


def _cfloat(x):
    """shadow as numpy or python number, to reproduce numpy float semantics"""
    return x


def _nonfinite(x):
    return isinstance(x, (float, np.floating)) and (x != x or x in (INF, -INF))


def binop(name, a, b):
    """a op b for scalars, at least one symbolic."""
    va, vb = val_of(a), val_of(b)
    py = is_py(a) and is_py(b)
    if CUR is not None:
        CUR.ops += 1
    if _nonfinite(va) or _nonfinite(vb):
        # the symbolic operand meets inf/nan: keep IEEE result of the shadow
        res = _concrete(name, va, vb, py)
        if name in ("lt", "le", "gt", "ge", "eq", "ne"):
            return res
        if not (isinstance(res, (float, np.floating)) and res != res):
            if CUR is not None:
                CUR.note_concretized("inf-arith")
        return res
    na, nb = node_of(a), node_of(b)
    if name == "add":
        return _mkres(n_add(na, nb), va, vb, name, py)
    if name == "sub":
        return _mkres(n_sub(na, nb), va, vb, name, py)
    if name == "mul":
        return _mkres(n_mul(na, nb), va, vb, name, py)
    if name in ("div", "floordiv", "mod"):
        nb_ = _num(nb)
        if nb_.lo <= 0 <= nb_.hi:
            z = decide(n_eq(nb_, const(0)), vb == 0, "div0")
            if z:
                if py:
                    raise ZeroDivisionError("float division by zero" if name == "div" else "float modulo")
                # IEEE: sign of numerator decides
                r = _concrete(name, va, vb, False)
                if isinstance(r, (float, np.floating)) and not (r != r):
                    decide(n_lt(const(0), _num(na)), va > 0, "div0sign")
                elif is_sym(a):
                    decide(n_eq(_num(na), const(0)), va == 0, "div0nan")
                return r
        f = {"div": n_div, "floordiv": n_floordiv, "mod": n_mod}[name]
        return _mkres(f(na, nb), va, vb, name, py)
    if name == "pow":
        return _pow(a, b, na, nb, va, vb, py)
    if name == "min":
        return _mkres(n_min(na, nb), va, vb, name, py)
    if name == "max":
        return _mkres(n_max(na, nb), va, vb, name, py)
    if name == "lt":
        return wrap(n_lt(na, nb), va < vb, py)
    if name == "gt":
        return wrap(n_lt(nb, na), va > vb, py)
    if name == "le":
        return wrap(n_le(na, nb), va <= vb, py)
    if name == "ge":
        return wrap(n_le(nb, na), va >= vb, py)
    if name == "eq":
        return wrap(n_eq(na, nb), va == vb, py)
    if name == "ne":
        return wrap(n_not(n_eq(na, nb)), va != vb, py)
    raise NotImplementedError(name)


_PYOP = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv,
         "floordiv": operator.floordiv, "mod": operator.mod, "pow": operator.pow,
         "lt": operator.lt, "gt": operator.gt, "le": operator.le, "ge": operator.ge, "eq": operator.eq, "ne": operator.ne,
         "min": lambda a, b: a if a <= b else b, "max": lambda a, b: a if a >= b else b}
_NPOP = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.true_divide, "floordiv": np.floor_divide, "mod": np.remainder,
         "pow": np.power, "min": np.minimum, "max": np.maximum,
         "lt": np.less, "gt": np.greater, "le": np.less_equal, "ge": np.greater_equal, "eq": np.equal, "ne": np.not_equal}


def _concrete(name, va, vb, py):
    if py and name not in ("min", "max"):
        return _PYOP[name](va, vb)
    with np.errstate(all="ignore"):
        if isinstance(va, bool) and isinstance(vb, bool) and name in ("sub",):
            va, vb = int(va), int(vb)
        if name == "pow" and not isinstance(va, (float, np.floating)) and not isinstance(vb, (float, np.floating)):
            return np.int64(int(va) ** int(vb)) if vb >= 0 else np.float64(float(va) ** float(vb))
        return _NPOP[name](va, vb)


def _mkres(node, va, vb, name, py):
    v = _concrete(name, va, vb, py)
    if node.sort == "R" and not isinstance(v, (float, np.floating)):
        v = float(v)
    return wrap(node, v, py)


def _pow(a, b, na, nb, va, vb, py):
    na, nb = _num(na), _num(nb)
    v = _concrete("pow", va, vb, py)
    if isinstance(v, complex):
        return v
    if nb.op == "const":
        e = nb.val
        if e == int(e) and 0 <= e <= 6:
            e = int(e)
            if e == 0:
                return wrap(const(1.0), 1.0, py)
            r = na
            for _ in range(e - 1):
                r = n_mul(r, na)
            if nb.sort == "R":
                r = _real(r)
            return wrap(r, v, py)
        if e == 0.5:
            return unop("sqrt", a)
        if e == int(e) and -6 <= e < 0:
            base = na
            if na.lo <= 0 <= na.hi:
                if decide(n_eq(na, const(0)), va == 0, "div0"):
                    if py:
                        raise ZeroDivisionError("0.0 cannot be raised to a negative power")
                    return _concrete("pow", np.float64(va), vb, False)
            r = base
            for _ in range(int(-e) - 1):
                r = n_mul(r, base)
            return wrap(n_div(const(1.0), r), v, py)
        # non integer exponent
        if na.lo < 0:
            neg = decide(n_lt(na, const(0)), va < 0, "powneg")
            if neg:
                if py:
                    return v
                return np.float64("nan")
        if e < 0 and na.lo <= 0:
            if decide(n_eq(na, const(0)), va == 0, "div0"):
                if py:
                    raise ZeroDivisionError("0.0 cannot be raised to a negative power")
                return np.float64(INF)
        return wrap(n_fun("pow", na, nb), v, py)
    # symbolic exponent
    if na.lo < 0:
        neg = decide(n_lt(na, const(0)), va < 0, "powneg")
        if neg and not (nb.sort == "I"):
            if isinstance(v, (float, np.floating)) and v != v:
                return np.float64("nan")
    if na.lo <= 0 <= na.hi and nb.lo < 0:
        if decide(n_eq(na, const(0)), va == 0, "div0"):
            return _concrete("pow", va, vb, py)
    return wrap(n_fun("pow", na, nb), v, py)


def _dom(name, a, cond_bad, vbad, py, bad):
    if decide(cond_bad, vbad, "dom"):
        return True
    return False


_UN = {"exp": np.exp, "sin": np.sin, "cos": np.cos, "tan": np.tan, "tanh": np.tanh, "sinh": np.sinh, "cosh": np.cosh,
       "arctan": np.arctan, "arccos": np.arccos, "arcsin": np.arcsin, "log": np.log, "log2": np.log2, "log10": np.log10,
       "log1p": np.log1p, "expm1": np.expm1, "sqrt": np.sqrt, "cbrt": np.cbrt}


def unop(name, a, pymath=False):
    """unary function of a symbolic scalar, numpy semantics (pymath: math-module semantics)"""
    v = a.v
    n = _num(a.n)
    py = a.py
    if CUR is not None:
        CUR.ops += 1
    if name == "neg":
        return wrap(n_neg(n), -v, py)
    if name == "abs":
        return wrap(n_abs(n), abs(v), py)
    if name == "floor":
        f = n_floor(n)
        return wrap(_real(f), float(math.floor(v)), False)
    if name == "ceil":
        f = n_ceil(n)
        return wrap(_real(f), float(math.ceil(v)), False)
    if name == "rint":
        return wrap(_real(n_rint(n)), float(round(v)), False)
    if name == "trunc":
        return wrap(_real(n_trunc(n)), float(int(v)), False)
    if name == "sign":
        one, zero = (const(1), const(0)) if n.sort == "I" else (const(1.0), const(0.0))
        s = n_ite(n_lt(zero, n), one, n_ite(n_lt(n, zero), n_neg(one), zero))
        return wrap(s, np.sign(v), False)
    if name == "square":
        return wrap(n_mul(n, n), v * v, py)
    if name == "reciprocal":
        return binop("div", np.float64(1.0), a)
    if name in ("log", "log2", "log10", "log1p"):
        edge = -1.0 if name == "log1p" else 0.0
        if n.lo <= edge:
            if decide(n_le(n, const(edge)), v <= edge, "dom"):
                if pymath:
                    raise ValueError("math domain error")
                with np.errstate(all="ignore"):
                    r = _UN[name](np.float64(v))
                if r == -INF:
                    decide(n_eq(n, const(edge)), v == edge, "dom0")
                else:
                    decide(n_lt(n, const(edge)), v < edge, "dom0")
                return r
    if name == "sqrt":
        if n.lo < 0:
            if decide(n_lt(n, const(0)), v < 0, "dom"):
                if pymath:
                    raise ValueError("math domain error")
                return np.float64("nan")
    if name in ("arccos", "arcsin"):
        if n.lo < -1 or n.hi > 1:
            if decide(n_or(n_lt(n, const(-1)), n_lt(const(1), n)), v < -1 or v > 1, "dom"):
                if pymath:
                    raise ValueError("math domain error")
                return np.float64("nan")
    if name == "erf":
        return wrap(n_fun("erf", n), math.erf(v), py)
    with np.errstate(all="ignore"):
        r = _UN[name](np.float64(v))
    if pymath and r in (INF,):
        raise OverflowError("math range error")
    return wrap(n_fun(name, n), r, py)


def _arr(x):
    return isinstance(x, np.ndarray)


class _Sym:
    __slots__ = ("n", "v", "py")
    __array_ufunc__ = None

    def __init__(self, n, v, py=False):
        self.n, self.v, self.py = n, v, py

    def _b(self, name, o, rev=False):
        if _arr(o) or isinstance(o, (list, tuple)):
            if isinstance(o, (list, tuple)):
                if name == "mul" and type(self) is SymInt:
                    return o * self.__index__()
                if name in ("eq", "ne"):
                    return NotImplemented
                if self.py:
                    return NotImplemented
            from . import npshim
            return npshim.vec2(name, o, self) if rev else npshim.vec2(name, self, o)
        if o is None or not (is_sym(o) or isinstance(o, (int, float, np.generic))):
            return NotImplemented
        return binop(name, o, self) if rev else binop(name, self, o)

    def __add__(self, o): return self._b("add", o)
    def __radd__(self, o): return self._b("add", o, True)
    def __sub__(self, o): return self._b("sub", o)
    def __rsub__(self, o): return self._b("sub", o, True)
    def __mul__(self, o): return self._b("mul", o)
    def __rmul__(self, o): return self._b("mul", o, True)
    def __truediv__(self, o): return self._b("div", o)
    def __rtruediv__(self, o): return self._b("div", o, True)
    def __floordiv__(self, o): return self._b("floordiv", o)
    def __rfloordiv__(self, o): return self._b("floordiv", o, True)
    def __mod__(self, o): return self._b("mod", o)
    def __rmod__(self, o): return self._b("mod", o, True)
    def __pow__(self, o): return self._b("pow", o)
    def __rpow__(self, o): return self._b("pow", o, True)
    def __divmod__(self, o): return self // o, self % o
    def __neg__(self): return unop("neg", self)
    def __pos__(self): return self
    def __abs__(self): return unop("abs", self)
    def __lt__(self, o): return self._b("lt", o)
    def __le__(self, o): return self._b("le", o)
    def __gt__(self, o): return self._b("gt", o)
    def __ge__(self, o): return self._b("ge", o)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, dict)):
            return False
        return self._b("eq", o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, dict)):
            return True
        return self._b("ne", o)

    def __hash__(self):
        return hash(self._concretize("hash"))

    def _concretize(self, why):
        """Pin the value: records `node == shadow` as a decision."""
        node = self.n
        if node.sort == "B":
            return decide(node, self.v)
        if CUR is not None:
            if node.sort == "I":
                decide(n_eq(node, const(self.v)), True, "pin")
            else:
                CUR.note_concretized(why)
        return self.v

    def __bool__(self):
        n = self.n
        if n.sort == "B":
            return decide(n, self.v)
        return not decide(n_eq(n, const(0)), self.v == 0)

    def __float__(self):
        if CUR is not None and self.n.sort == "R":
            CUR.note_concretized("float()")
        elif CUR is not None:
            self._concretize("float()")
        return float(self.v)

    def __int__(self):
        if self.n.sort == "R":
            t = n_trunc(self.n)
            return SymInt(t, int(self.v))._concretize("int()") if t.op != "const" else int(t.val)
        return int(self._concretize("int()"))

    def __complex__(self):
        return complex(self.__float__())

    def __round__(self, nd=None):
        from . import npshim
        if nd is None:
            return wrap(n_rint(self.n), round(self.v), True) if self.n.sort == "R" else self
        return npshim.round_scalar(self, nd)

    def __trunc__(self):
        return wrap(n_trunc(self.n), int(self.v), True)

    def __floor__(self):
        return wrap(n_floor(self.n), math.floor(self.v), True)

    def __ceil__(self):
        return wrap(n_ceil(self.n), math.ceil(self.v), True)

    def __format__(self, spec):
        return format(self.v, spec)

    def __str__(self):
        return str(self.v)

    def __repr__(self):
        return f"<{self.v!r}>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (float, (self.v,))

    # numpy-scalar-like API
    def item(self): return type(self)(self.n, self.v, True)
    def copy(self): return self
    def conjugate(self): return self

    @property
    def real(self): return self

    @property
    def imag(self): return 0.0

    @property
    def shape(self): return ()

    @property
    def size(self): return 1

    @property
    def ndim(self): return 0

    @property
    def dtype(self):
        return np.dtype({"R": float, "I": int, "B": bool}[self.n.sort])

    def tolist(self): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def any(self, *a, **k): return self
    def all(self, *a, **k): return self
    def flatten(self):
        from . import npshim
        return npshim.asarr([self])
    ravel = flatten

    def reshape(self, *a):
        from . import npshim
        return npshim.asarr([self]).reshape(*a)

    def astype(self, t):
        from . import npshim
        return npshim.cast_scalar(self, npshim.kind_of_dtype(t))

    def clip(self, lo, hi):
        from . import npshim
        return npshim.SHIM.clip(self, lo, hi)

    def round(self, nd=0):
        from . import npshim
        return npshim.round_scalar(self, nd)


class SymReal(_Sym):
    __slots__ = ()
    proto = property(lambda s: 0.5 if s.py else np.float64(0.5))

    def is_integer(self):
        return wrap(n_eq(self.n, _real(n_floor(self.n))), float(self.v).is_integer(), True)


class SymInt(_Sym):
    __slots__ = ()
    proto = property(lambda s: 1 if s.py else np.int64(1))

    def __index__(self):
        return int(self._concretize("index"))

    def __and__(self, o):
        return NotImplemented if _arr(o) else self.__index__() & int(o)

    def __xor__(self, o):
        return self.__index__() ^ int(o)

    def __rxor__(self, o):
        return int(o) ^ self.__index__()


class SymBool(_Sym):
    __slots__ = ()
    proto = property(lambda s: True if s.py else np.bool_(True))

    def __index__(self):
        return int(bool(self))

    def _lb(self, o, f, g):
        if _arr(o):
            from . import npshim
            return npshim.veclogic(f, self, o)
        if is_sym(o) and o.n.sort != "B":
            o = bool(o)
        return wrap(f(self.n, node_of(o)), g(self.v, bool(val_of(o))), self.py)

    def __and__(self, o): return self._lb(o, n_and, lambda a, b: a and b)
    __rand__ = __and__
    def __or__(self, o): return self._lb(o, n_or, lambda a, b: a or b)
    __ror__ = __or__
    def __xor__(self, o): return self._lb(o, lambda a, b: n_not(n_eq(a, b)), lambda a, b: a != b)
    __rxor__ = __xor__
    def __invert__(self): return wrap(n_not(self.n), not self.v, self.py)

    def __neg__(self): return -wrap(_num(self.n), int(self.v), self.py)
    def __abs__(self): return wrap(_num(self.n), int(self.v), self.py)


for _c in (SymReal, SymInt, SymBool):
    numbers.Number.register(_c)
numbers.Integral.register(SymInt)
numbers.Real.register(SymReal)


def truth(x):
    """node of the truth value of a scalar"""
    if is_sym(x):
        return x.n if x.n.sort == "B" else n_not(n_eq(x.n, const(0)))
    return TRUE if x else FALSE
