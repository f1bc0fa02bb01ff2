"""Expression nodes -> z3, and the queries the checks ask."""
import math
import time
from fractions import Fraction
import z3
from . import core
from .core import TRUE, FALSE, n_not, n_and

INF = math.inf
ODD = ("tanh", "erf", "arctan", "atan", "sinh", "arcsinh", "asinh")
MARGIN = 0          # asks for models that stay away from comparisons of abstracted functions
ENVELOPE = 0        # grid points of the bounds put around monotone functions (kernels set it)


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = self.unsat = self.unknown = 0
        self.time = 0.0
        self.trivial = 0     # decided by constant folding / interval reasoning on the node

    def add(self, o):
        for k in self.__dict__:
            setattr(self, k, getattr(self, k) + getattr(o, k))

    def as_dict(self):
        return {"solver_queries": self.queries, "sat": self.sat, "unsat": self.unsat, "unknown": self.unknown,
                "solver_s": round(self.time, 2), "decided_by_folding_or_intervals": self.trivial}


def rat(v):
    f = Fraction(v)
    if f.denominator == 1:
        return z3.RealVal(f.numerator)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


class Tr:
    """one translation: mode 'full' keeps nonlinear arithmetic, 'abs' replaces it by bounded fresh variables"""

    def __init__(self, mode="full"):
        self.mode = mode
        self.memo = {}
        self.side = []
        self.vars = {}
        self.mono = {}

    def bounds(self, e, n):
        if n.lo != -INF:
            self.side.append(e >= (rat(n.lo) if n.sort == "R" else z3.IntVal(int(n.lo))))
        if n.hi != INF:
            self.side.append(e <= (rat(n.hi) if n.sort == "R" else z3.IntVal(int(n.hi))))

    def fresh(self, n):
        nm = f"t{n.id}"
        e = z3.Real(nm) if n.sort == "R" else z3.Int(nm)
        self.bounds(e, n)
        return e

    def envelope(self, nm, node, x, e):
        """monotone function: bounds between grid points, and order between two applications"""
        f = core._MONO[nm]
        lo, hi = max(node.lo, -20.0), min(node.hi, 20.0)
        pts = {lo + (hi - lo) * i / ENVELOPE for i in range(ENVELOPE + 1)} | {v for v in (-1.0, 0.0, 1.0) if lo <= v <= hi}
        for p in sorted(pts):
            try:
                v = f(p)
            except (ValueError, OverflowError):
                continue
            if v in (INF, -INF):
                continue
            s = abs(v) * 1e-12
            self.side.append(z3.Implies(x <= rat(p), e <= rat(v + s)))
            self.side.append(z3.Implies(x >= rat(p), e >= rat(v - s)))
        for x2, e2 in self.mono.get(nm, ()):
            self.side.append(z3.Implies(x <= x2, e <= e2))
            self.side.append(z3.Implies(x2 <= x, e2 <= e))
            if nm in ODD:
                self.side.append(z3.Implies(x <= -x2, e <= -e2))
                self.side.append(z3.Implies(x >= -x2, e >= -e2))
            elif nm == "exp":
                self.side.append(z3.Implies(x == -x2, e * e2 == 1))
        self.mono.setdefault(nm, []).append((x, e))

    def lipschitz(self, nm, node, x, e):
        """sin and cos on a bounded range: no steeper than one around the grid points"""
        lo, hi = node.lo, node.hi
        if hi - lo > 40:
            return
        f = math.sin if nm == "sin" else math.cos
        n = ENVELOPE * 2
        if nm == "sin":
            self.side.append(z3.Implies(z3.And(x >= 0, x <= rat(math.pi)), e >= 0))
        for i in range(n + 1):
            p = lo + (hi - lo) * i / n
            v = f(p)
            d = z3.If(x >= rat(p), x - rat(p), rat(p) - x)
            self.side.append(e <= rat(v + 1e-12) + d)
            self.side.append(e >= rat(v - 1e-12) - d)

    def __call__(self, root):
        memo = self.memo
        stack = [root]
        while stack:
            n = stack[-1]
            if n.id in memo:
                stack.pop()
                continue
            todo = [a for a in n.args if a.id not in memo]
            if self.mode == "abs" and self.opaque(n):
                todo = []
            if todo:
                stack.extend(todo)
                continue
            memo[n.id] = self.one(n, [memo.get(a.id) for a in n.args])
            stack.pop()
        return memo[root.id]

    def opaque(self, n):
        if n.op == "fun":
            return True
        if n.op == "mul":
            return n.args[0].op != "const" and n.args[1].op != "const"
        if n.op == "div":
            return n.args[1].op != "const"
        return False

    def one(self, n, a):
        op = n.op
        if op == "const":
            return rat(n.val) if n.sort == "R" else z3.IntVal(n.val)
        if op == "bconst":
            return z3.BoolVal(n.val)
        if op == "var":
            e = {"R": z3.Real, "I": z3.Int, "B": z3.Bool}[n.sort](str(n.val))
            self.vars[n.val] = e
            if n.sort != "B":
                self.bounds(e, n)
            return e
        if self.mode == "abs" and self.opaque(n):
            return self.fresh(n)
        if op == "add":
            return a[0] + a[1]
        if op == "sub":
            return a[0] - a[1]
        if op == "neg":
            return -a[0]
        if op == "mul":
            return a[0] * a[1]
        if op == "div":
            return a[0] / a[1]
        if op == "min":
            return z3.If(a[0] <= a[1], a[0], a[1])
        if op == "max":
            return z3.If(a[0] >= a[1], a[0], a[1])
        if op == "abs":
            return z3.If(a[0] >= 0, a[0], -a[0])
        if op == "ite":
            return z3.If(a[0], a[1], a[2])
        if op == "toreal":
            return z3.ToReal(a[0])
        if op == "b2i":
            return z3.If(a[0], z3.IntVal(1), z3.IntVal(0))
        if op == "floor":
            return z3.ToInt(a[0])
        if op == "rint":
            k = z3.ToInt(a[0] + z3.RealVal("1/2"))
            return z3.If(z3.And(z3.ToReal(k) == a[0] + z3.RealVal("1/2"), k % 2 != 0), k - 1, k)
        if op == "imod":
            return a[0] % a[1]
        if op == "idiv":
            return a[0] / a[1]
        if op == "rangeof":
            e = a[0]
            self.bounds(e, n)
            return e
        if op == "fun":
            e = self.fresh(n)
            nm = n.val
            if ENVELOPE and self.mode == "full" and nm in core._MONO and nm != "sqrt":
                self.envelope(nm, n.args[0], a[0], e)
            if ENVELOPE and self.mode == "full" and nm in ("sin", "cos"):
                self.lipschitz(nm, n.args[0], a[0], e)
            if nm == "sqrt":
                if self.mode == "full":
                    self.side.append(e >= 0)
                    self.side.append(e * e == a[0])
            elif nm == "exp":
                self.side.append(e > 0)
                self.side.append(e >= a[0] + 1)
            elif nm in ("log",):
                self.side.append(e <= a[0] - 1)
            elif nm == "pow" and n.lo >= 0:
                self.side.append(e >= 0)
            return e
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(a[0], a[1])
        if op == "or":
            return z3.Or(a[0], a[1])
        if op == "lt":
            if MARGIN and nonlinear(n.args):
                m = rat(MARGIN)
                self.side.append(z3.Or(a[0] - a[1] >= m, a[1] - a[0] >= m))
            return a[0] < a[1]
        if op in ("eq", "iff"):
            return a[0] == a[1]
        raise NotImplementedError(op)


def slice_(target_vs, cons):
    """constraints transitively sharing variables with target"""
    rest = [c for c in cons if c.vs]
    cur = target_vs
    out = []
    changed = True
    while changed:
        changed = False
        nxt = []
        for c in rest:
            if c.vs & cur:
                out.append(c)
                if c.vs & ~cur:
                    cur |= c.vs
                    changed = True
            else:
                nxt.append(c)
        rest = nxt
    return out


def zval(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


def check(cons, stats, mode="full", timeout=1000, want_model=True, extra=None):
    """sat/unsat/unknown for a conjunction of nodes; returns (verdict, {var: value})"""
    cons = [c for c in cons if c is not core.TRUE and not (c.op == "bconst" and c.val)]
    if any(c.op == "bconst" for c in cons):
        stats.trivial += 1
        return "unsat", None
    tr = Tr(mode)
    t0 = time.time()
    try:
        zs = [tr(c) for c in cons]
    except (z3.Z3Exception, ZeroDivisionError):
        stats.unknown += 1
        return "unknown", None
    s = z3.Solver()
    s.set("timeout", int(timeout))
    s.set("random_seed", 1)
    s.add(*tr.side)
    s.add(*zs)
    if extra:
        s.add(*extra(tr))
    stats.queries += 1
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    stats.time += time.time() - t0
    if r == z3.unsat:
        stats.unsat += 1
        return "unsat", None
    if r == z3.unknown:
        stats.unknown += 1
        return "unknown", None
    stats.sat += 1
    if not want_model:
        return "sat", None
    try:
        m = s.model()
        return "sat", {k: zval(m, e) for k, e in tr.vars.items()}
    except z3.Z3Exception:
        return "sat", None


def prove(pc, goal, stats, timeout=2000):
    """Does goal hold for every assignment satisfying pc?  -> ('proved'|'cex'|'unknown', model)"""
    if goal.op == "bconst":
        stats.trivial += 1
        return ("proved", None) if goal.val else ("cex", {})
    if goal.op == "and":
        worst, unknown = ("proved", None), 0
        st, parts = [goal], []
        while st:
            g = st.pop()
            if g.op == "and":
                st.extend(reversed(g.args))
            else:
                parts.append(g)
        for g in parts:
            v, m = prove(pc, g, stats, timeout)
            if v == "cex":
                return v, m
            if v == "unknown":
                worst = (v, m if m is not None else worst[1])
                unknown += 1
                if unknown > 5:
                    break       # undecided anyway
        return worst
    ng = n_not(goal)
    rel = slice_(ng.vs, pc)
    v, m = check([ng], stats, "abs", min(timeout, 1000), want_model=False)
    if v == "unsat":
        return "proved", None
    v, m = check(rel + [ng], stats, "abs", min(timeout, 1000))
    if v == "unsat":
        return "proved", None
    has_nl = nonlinear(rel + [ng])
    if v == "sat" and not has_nl:
        return "cex", m
    v2, m2 = check(rel + [ng], stats, "full", timeout)
    if v2 == "unsat":
        return "proved", None
    if v2 == "sat":
        return "cex", m2
    return "unknown", m


def nonlinear(nodes):
    seen = set()
    st = list(nodes)
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == "fun" or (n.op == "mul" and n.args[0].op != "const" and n.args[1].op != "const") or (n.op == "div" and n.args[1].op != "const"):
            return True
        st.extend(n.args)
    return False
