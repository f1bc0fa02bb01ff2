"""What the optimizer-wide properties assert on one outcome."""
import math
from symx import core, harness, npshim, par
from symx.core import node_of, val_of, is_sym, n_le, n_lt, n_and, n_or, n_eq, n_not, const, TRUE, FALSE
from .sweep import Judge, default_cases, given_starts, STARTS

H = harness.Case


def isbad(v):
    v = float(v)
    return v != v or v in (math.inf, -math.inf)


def tol(b):
    return 1e-9 * max(1.0, abs(b))


def in_box(xs, lb, ub):
    """None or a text saying how a concrete point leaves the box"""
    if len(xs) != len(lb):
        return f"has {len(xs)} coordinates instead of {len(lb)}"
    for d, (x, l, u) in enumerate(zip(xs, lb, ub)):
        x = val_of(x)
        try:
            x = float(x)
        except TypeError:
            return f"coordinate {d} is {x!r}"
        if isbad(x):
            return f"coordinate {d} is {x}"
        if x < l - tol(l) or x > u + tol(u):
            return f"coordinate {d} is {x!r}, outside [{l}, {u}]"
    return None


def nodes(xs):
    try:
        return [core._real(core._num(node_of(x))) for x in xs]
    except Exception:
        return None


def nodes_or_none(xs):
    try:
        return nodes(xs)
    except core.Poison:
        return None


def box_goal(xs, lb, ub):
    ns = nodes(xs)
    if ns is None or len(ns) != len(lb):
        return FALSE
    g = TRUE
    for n, l, u in zip(ns, lb, ub):
        g = n_and(g, n_and(n_le(const(l - tol(l)), n), n_le(n, const(u + tol(u)))))
    return g


def cls_of(case):
    return case.clsname


class Bounds(Judge):
    prop = "C01"

    def concrete(self, o, case):
        lb, ub = harness.LB[:case.dims], harness.UB[:case.dims]
        out, seen = [], set()
        for e in o.evals:
            w = in_box(e.xs, lb, ub)
            if w:
                kind = "non-finite" if ("nan" in w or "inf" in w) else "outside"
                k = f"{cls_of(case)}|{kind} point evaluated|{e.where}"
                if k not in seen:
                    seen.add(k)
                    out.append((k, f"{case.key()}: evaluation {e.k} (from {e.where}): {w}"))
        if o.error is None:
            for where, a in agents_top(o):
                w = in_box(harness.scal(a.solution), lb, ub)
                if w:
                    k = f"{cls_of(case)}|agent outside"
                    if k not in seen:
                        seen.add(k)
                        out.append((k, f"{case.key()}: {where}: {w}"))
        return out

    def goals(self, o, case, run):
        lb, ub = harness.LB[:case.dims], harness.UB[:case.dims]
        for e in o.evals:
            yield f"{cls_of(case)}|outside|{e.where}", box_goal(e.xs, lb, ub), e.nd, "evaluated point in bounds"
        if o.error is None:
            n = len(run.decisions)
            for where, a in agents_top(o):
                yield f"{cls_of(case)}|agent outside", box_goal(harness.scal(a.solution), lb, ub), n, where


def agents_top(o):
    """every agent reachable after solve, with the list it is in as its place"""
    seen = set()
    for where, a in harness.agents_of(o):
        if id(a) in seen:
            continue
        seen.add(id(a))
        yield where.split("[")[0], a


class Consistent(Judge):
    """the fitness stored with a solution is the objective's value at that solution"""
    prop = "C02"

    def concrete(self, o, case):
        if o.error is not None:
            return []
        out, seen = [], set()
        for where, a in agents_top(o):
            k = f"{cls_of(case)}|stale fitness"
            if k in seen:
                continue
            if a.target is None:
                seen.add(k)
                out.append((k, f"{case.key()}: {where} has no target"))
                continue
            xs = harness.scal(a.solution)
            w = o.obj.peek(xs)
            f = float(val_of(a.target.fitness))
            if w is None:
                seen.add(k)
                out.append((k, f"{case.key()}: {where} solution {tuple(round(float(val_of(x)), 6) for x in xs)} was never evaluated but carries fitness {f}"))
            elif not (f == float(val_of(w)) or abs(f - float(val_of(w))) <= 1e-9 * max(1, abs(f))):
                seen.add(k)
                out.append((k, f"{case.key()}: {where} carries fitness {f} but the objective gave {float(val_of(w))} at its solution"))
        return out

    def goals(self, o, case, run):
        if o.error is not None:
            return
        n = len(run.decisions)
        by, exact = {}, {}
        for e in o.evals:
            by.setdefault(tuple(harness.vals(e.xs)), e)
            ns = nodes_or_none(e.xs)
            if ns is not None:
                exact.setdefault(tuple(x.id for x in ns), e)
        for where, a in agents_top(o):
            if a.target is None:
                continue
            xs = harness.scal(a.solution)
            ns = nodes_or_none(xs)
            e = exact.get(tuple(x.id for x in ns)) if ns is not None else None
            if e is None:
                e = by.get(tuple(harness.vals(xs)))
            k = f"{cls_of(case)}|stale fitness"
            if e is None:
                yield k, FALSE, n, where
                continue
            na, ne = ns, nodes_or_none(e.xs)
            if na is None or ne is None:
                continue        # non-finite coordinates are compared as values above
            g = n_eq(core._real(node_of(a.target.fitness)), core._real(node_of(e.fit)))
            for x, y in zip(na, ne):
                g = n_and(g, n_eq(x, y))
            yield k, g, n, where


def better(a, b, minmax):
    """node: fitness a strictly better than b"""
    a, b = core._real(core._num(node_of(a))), core._real(core._num(node_of(b)))
    return n_lt(a, b) if minmax == "min" else n_lt(b, a)


class Monotone(Judge):
    prop = "C03"

    def pairs(self, o, case):
        """(key, fitness that must not be worse, fitness, text)"""
        h = o.opt.history
        gb = [a.target.fitness for a in h.list_global_best]
        c = cls_of(case)
        for i in range(1, len(gb)):
            yield f"{c}|best-so-far worsens", gb[i], gb[i - 1], f"global best of epoch {i + 1} is worse than that of epoch {i}"
        gf = list(h.list_global_best_fit)
        for i in range(1, len(gf)):
            yield f"{c}|best-so-far worsens", gf[i], gf[i - 1], f"recorded best fitness of epoch {i + 1} is worse than that of epoch {i}"
        if o.best is not None and gb:
            yield f"{c}|returned best", o.best.target.fitness, gb[-1], "returned best is worse than the last recorded best"
            for i, a in enumerate(o.opt.pop):
                yield f"{c}|returned best worse than final population", o.best.target.fitness, a.target.fitness, f"returned best is worse than final agent {i}"
        for e, pop in enumerate(h.list_population):
            for i, a in enumerate(pop):
                if e < len(gb):
                    yield f"{c}|best-so-far worse than population", gb[e], a.target.fitness, f"best of epoch {e + 1} is worse than agent {i} of that epoch"
        cb = [a.target.fitness for a in h.list_current_best]
        for e, f in enumerate(cb):
            if e < len(gb):
                yield f"{c}|best-so-far worse than current best", gb[e], f, f"global best of epoch {e + 1} is worse than its current best"
            if e < len(h.list_population):
                for i, a in enumerate(h.list_population[e]):
                    yield f"{c}|current best worse than population", f, a.target.fitness, f"current best of epoch {e + 1} is worse than agent {i} of that epoch"

    def concrete(self, o, case):
        if o.error is not None:
            return []
        out, seen = [], set()
        for k, a, b, msg in self.pairs(o, case):
            x, y = float(val_of(a)), float(val_of(b))
            bad = (y < x) if case.minmax == "min" else (y > x)
            if (bad or x != x) and k not in seen:
                seen.add(k)
                out.append((k, f"{case.key()}: {msg} ({x} vs {y})"))
        return out

    def goals(self, o, case, run):
        if o.error is not None:
            return
        n = len(run.decisions)
        seen = set()
        for k, a, b, msg in self.pairs(o, case):
            g = n_not(better(b, a, case.minmax))
            if g.id in seen:
                continue
            seen.add(g.id)
            yield k, g, n, msg


class Counter(Judge):
    prop = "C04"

    def shape(self, case, r):
        case.repeat = 1 if r.random() < 0.3 else False

    def cases(self, cls):
        out = default_cases(cls, self.pop)
        for c in out[1:]:
            if not c.warm:
                c.termination = {"max_epoch": 2}
        for c in out[:1]:
            c.repeat = 1
        for c, mode in zip(out[:2], ("thread", "process")):
            out.append(H(cls.__name__, c.kwargs, mode, c.minmax, n_workers=2))
        return given_starts(given_starts(out), -2)

    def concrete(self, o, case):
        if o.error is not None:
            return []
        n = o.opt.nfe_counter
        if n != o.obj.calls:
            return [(f"{cls_of(case)}|evaluation count", f"{case.key()}: the counter says {n} but the objective was called {o.obj.calls} times")]
        return []

    def goals(self, o, case, run):
        if o.error is None:
            yield f"{cls_of(case)}|evaluation count", TRUE if o.opt.nfe_counter == o.obj.calls else FALSE, 0, ""


class Crash(Judge):
    prop = "C06"

    def shape(self, case, r):
        if r.random() < 0.2:
            case.dims = 1

    def cases(self, cls):
        out = default_cases(cls, self.pop)
        if out:
            out.append(H(cls.__name__, out[0].kwargs, "single", "min", dims=1, starting="lists"))
            out.append(H(cls.__name__, out[0].kwargs, "single", "max", dims=3, fitmode="zero"))
            low = [c for c in out if c.label == "low"]
            out.append(H(cls.__name__, (low or out)[0].kwargs, "swarm", "max", dims=1, fitmode="step", label=(low or out)[0].label, warm=4))
        return out

    def concrete(self, o, case):
        if o.error is None or harness.in_harness(o):
            return []
        fr = harness.mealpy_frames(o.tb)
        last = fr[-1] if fr else ("?", "?", 0)
        for f in reversed(fr):
            if not f[1].startswith("<") and harness.known_function(f[0][:-3], f[1]):
                last = f
                break
        return [(f"{cls_of(case)}|{type(o.error).__name__}|{last[0].rsplit('/', 1)[-1]}:{last[1]}",
                 f"{case.key()}: {type(o.error).__name__}: {str(o.error)[:160]} at {last[0]}:{last[2]} in {last[1]}")]


def cmp_runs(o, p):
    """yield (what, a, b): values that have to be equal in two runs; a None pair means the shapes differ"""
    if p.prev_failed:
        return
    if (o.error is None) != (p.error is None):
        yield "one run failed", None, None
        return
    if o.error is not None:
        return
    if len(o.obj.evals) != len(p.obj.evals):
        yield f"number of evaluations {len(o.obj.evals)} vs {len(p.obj.evals)}", None, None
        return
    for i, (a, b) in enumerate(zip(o.obj.evals, p.obj.evals)):
        if len(a.xs) != len(b.xs):
            yield f"shape of evaluation {i}", None, None
            return
        for x, y in zip(a.xs, b.xs):
            yield f"point of evaluation {i + 1}", x, y
    yield from cmp_results(o, p)


def cmp_results(o, p):
    for x, y in zip(harness.scal(o.best.solution), harness.scal(p.best.solution)):
        yield "returned solution", x, y
    yield "returned fitness", o.best.target.fitness, p.best.target.fitness
    a, b = o.opt.history.list_global_best_fit, p.opt.history.list_global_best_fit
    if len(a) != len(b):
        yield "number of epochs", None, None
        return
    for i, (x, y) in enumerate(zip(a, b)):
        yield f"best fitness of epoch {i + 1}", x, y


def same_val(x, y):
    x, y = float(val_of(x)), float(val_of(y))
    return x == y or (x != x and y != y)


# every kind of variable in the two-run comparison, for methods that move all coordinates / permute / recombine
MIXED_PAIRS = ("OriginalPSO", "OriginalGWO", "BaseGA", "OriginalDE", "OriginalWOA", "OriginalHS")


class Determinism(Judge):
    prop = "C05"
    pop = 8

    warms = (3, 8, 15)

    def shape(self, case, r):
        if case.clsname in MIXED_PAIRS and r.random() < 0.3:
            case.mix = r.choice("ABC")

    variants = [("second run", {}, None), ("optimizer used before", {"repeat": 1}, None)]

    def cases(self, cls):
        out = default_cases(cls, self.pop, warm=False)
        for i, c in enumerate(out):
            c.termination = None
            if c.minmax == "max":
                c.seed = 0
        if out:
            low = [c for c in out if c.label == "low"]
            out += [H(cls.__name__, out[0].kwargs, "single", "min", warm=8), H(cls.__name__, (low or out)[0].kwargs, "swarm", "max", fitmode="sphere", label=(low or out)[0].label, warm=5)]
        if cls.__name__ in MIXED_PAIRS:
            for mix in "ABC":
                out += [H(cls.__name__, out[0].kwargs, "single", "min", mix=mix), H(cls.__name__, out[0].kwargs, "swarm", "max", mix=mix, fitmode="const")]
        return given_starts(out)

    def spec(self, case):
        return [(kw, ex) for _, kw, ex in self.variants]

    def runner(self, case, run):
        return harness.pair_symbolic(case, run, self.spec(case))

    def replayer(self, case, assign, seed):
        return harness.pair_concrete(case, assign, seed, self.spec(case))

    def label(self, i):
        return self.variants[i][0]

    def compare(self, o, p):
        return cmp_runs(o, p)

    def concrete(self, o, case):
        out = []
        for i, (kw, p) in enumerate(o.others):
            for what, a, b in self.compare(o, p):
                if a is None or not same_val(a, b):
                    d = "" if a is None else f" is {float(val_of(a))!r} in one run and {float(val_of(b))!r} in the other"
                    out.append((f"{cls_of(case)}|{self.label(i)} differs", f"{case.key()}: {self.label(i)}: {what}{d}"))
                    break
        return out

    def goals(self, o, case, run):
        n = len(run.decisions)
        for i, (kw, p) in enumerate(o.others):
            k = f"{cls_of(case)}|{self.label(i)} differs"
            g = TRUE
            for what, a, b in self.compare(o, p):
                if a is None:
                    g = FALSE
                    break
                if core._nonfinite(val_of(a)) or core._nonfinite(val_of(b)):
                    continue
                try:
                    g = n_and(g, n_eq(core._real(core._num(node_of(a))), core._real(core._num(node_of(b)))))
                except core.Poison:
                    continue
            yield k, g, n, "same seed, same run"


# methods whose formulas use the size or the sign of fitness values: for them a maximisation run is another search
DIRECTED = {"OriginalGTO", "Matlab101GTO", "Matlab102GTO", "OriginalBFO", "OriginalBSA", "OriginalDMOA", "DevDMOA", "OriginalFDO",
            "OriginalRIME", "DevSMO", "OriginalQSA", "DevQSA", "OppoQSA", "LevyQSA", "ImprovedQSA", "OriginalFA",
            "OriginalMVO", "WMQIMRFO", "OriginalGJA", "OriginalINFO", "OriginalKLA", "OriginalSBO"}
# a constant added to the fitness keeps the formulas apart: answers so large that it does not show
OFFSET = {"OriginalAPO", "OriginalSMA", "DevSMA", "OriginalFLA", "OriginalCrayfishOA", "OriginalSSpiderO", "OriginalEVO", "OriginalHGSO", "OriginalESOA"}


def near(a, b, t=1e-6):
    a, b = float(val_of(a)), float(val_of(b))
    return a == b or abs(a - b) <= t * max(1.0, abs(a), abs(b)) or (a != a and b != b)


class Mirror(Determinism):
    """minimising v1, v2, ... against maximising -v1, -v2, ...: the same search"""
    prop = "C38"

    starts = False

    def shape(self, case, r):
        case.minmax, case.mirror = "min", 1e7 if case.clsname in OFFSET else 1

    def spec(self, case):
        return [({"mirror": -case.mirror, "minmax": "max"}, None)]

    def label(self, i):
        return "mirrored run"

    def cases(self, cls):
        if cls.__name__ in DIRECTED:
            return []
        out = default_cases(cls, self.pop, warm=False)
        for c in out:
            c.termination = None
        if out:
            low = [c for c in out if c.label == "low"]
            out += [H(cls.__name__, out[0].kwargs, "single", warm=8), H(cls.__name__, (low or out)[0].kwargs, "swarm", fitmode="sphere", label=(low or out)[0].label, warm=5)]
        for c in out:
            self.shape(c, None)
        return out

    def runner(self, case, run):
        o, src = super().runner(case, run)
        # answers that were compared differ
        fits = {v.vs: v for n, v in core.VARS.items() if n.startswith("fit")}
        seen = set()
        for k, d in enumerate(run.decisions):
            m = d[1].vs
            if m in seen or bin(m).count("1") != 2:
                continue
            seen.add(m)
            a, b = fits.get(m & -m), fits.get(m & (m - 1))
            if a is not None and b is not None and run.values.get(a.val) != run.values.get(b.val):
                run.assumes.append((k, n_not(n_eq(a, b))))
        return o, src

    def compare(self, o, p):
        if o.opt is None or p.opt is None:
            return
        if isinstance(o.error, ZeroDivisionError) or isinstance(p.error, ZeroDivisionError):
            return
        if (o.error is None) != (p.error is None):
            yield f"one run failed ({o.error or p.error!r})", None, None
            return
        for i, (a, b) in enumerate(zip(o.obj.evals, p.obj.evals)):
            if len(a.xs) != len(b.xs):
                yield f"shape of evaluation {i + 1}", None, None
                return
            for x, y in zip(a.xs, b.xs):
                yield f"point of evaluation {i + 1}", x, y
        if len(o.obj.evals) != len(p.obj.evals):
            yield f"number of evaluations {len(o.obj.evals)} vs {len(p.obj.evals)}", None, None
            return
        if o.error is not None:
            return
        for x, y in zip(harness.scal(o.best.solution), harness.scal(p.best.solution)):
            yield "returned solution", x, y
        yield "returned fitness", o.best.target.fitness, -p.best.target.fitness
        for k in ("global_best", "current_best", "global_worst", "current_worst"):
            a, b = getattr(o.opt.history, "list_" + k), getattr(p.opt.history, "list_" + k)
            if len(a) != len(b):
                yield "number of epochs", None, None
                return
            for i, (x, y) in enumerate(zip(a, b)):
                yield f"{k.replace('_', ' ')} fitness of epoch {i + 1}", x.target.fitness, -y.target.fitness

    def concrete(self, o, case):
        vs = sorted(float(val_of(e.fit)) for e in o.obj.evals)
        if any(b - a <= 1e-6 * max(1.0, abs(b)) for a, b in zip(vs, vs[1:])):
            return []
        out = []
        for i, (kw, p) in enumerate(o.others):
            for what, a, b in self.compare(o, p):
                if a is None or not near(a, b):
                    d = "" if a is None else f" is {float(val_of(a))!r} when minimising and {float(val_of(b))!r} when maximising the negated answers"
                    out.append((f"{cls_of(case)}|{self.label(i)} differs", f"{case.key()}: {what}{d}"))
                    break
        return out


class Parallel(Determinism):
    """thread and process pools, any schedule, against the sequential batch mode"""
    prop = "C10"
    modes = ("swarm",)
    warms = (2, 5, 10)

    def shape(self, case, r):
        pass

    def cases(self, cls):
        out = [c for c in default_cases(cls, self.pop, full=False, warm=False) if c.label in ("default", "high")]
        for c in out:
            c.mode = "swarm"
            c.termination = {"max_epoch": 2}
        out = out[:2]
        if out:
            out.append(H(cls.__name__, out[0].kwargs, "swarm", "max", fitmode="sphere", warm=5))
        return given_starts(out)

    variants = [("thread pool", {"mode": "thread", "n_workers": 2}, par.extra), ("process pool", {"mode": "process", "n_workers": 2}, par.extra)]

    def spec(self, case):
        return [(kw, ex) for _, kw, ex in self.variants]

    def compare(self, o, p):
        if o.opt is not None and not o.opt.is_parallelizable:
            return
        if (o.error is None) != (p.error is None):
            yield f"one run failed ({o.error or p.error!r})", None, None
            return
        if o.error is not None:
            return
        yield "evaluations performed", len(o.obj.evals), len(p.obj.evals)
        yield "evaluations counted", o.opt.nfe_counter, p.opt.nfe_counter
        yield from cmp_results(o, p)
        for i, (a, b) in enumerate(zip(o.opt.pop, p.opt.pop)):
            for x, y in zip(harness.scal(a.solution), harness.scal(b.solution)):
                yield f"final agent {i}", x, y
            yield f"fitness of final agent {i}", a.target.fitness, b.target.fitness


class Starting(Judge):
    """user supplied starting points are the initial population"""
    prop = "C07"

    def shape(self, case, r):
        case.starting = r.choice(STARTS)

    def cases(self, cls):
        out = default_cases(cls, self.pop, warm=False)
        if out:
            out.append(H(cls.__name__, out[0].kwargs, "single", "max", fitmode="sphere", warm=6))
        for i, c in enumerate(out):
            c.starting = STARTS[i % len(STARTS)]
        return out

    @staticmethod
    def refused(o, case):
        """the form in which the starting points came stopped the run"""
        return isinstance(o.error, (TypeError, AttributeError)) and case.starting != "arrays" and not harness.in_harness(o)

    @staticmethod
    def fit_of(o, i):
        f = o.obj.peek(o.starts[i])
        return o.best.target.fitness if f is None else f

    def pairs(self, o):
        if o.error is not None or o.starts is None:
            return
        n = len(o.starts)
        pos = 0
        first = o.evals[:2 * n]         # opposition-based initialisations evaluate each point and its opposite
        for i, row in enumerate(o.starts):
            want = harness.vals(row)
            j = pos
            while j < len(first) and any(abs(x - y) > 1e-9 for x, y in zip(harness.vals(first[j].xs), want)):
                j += 1
            if j == len(first) or (i == 0 and j != 0):
                yield "starting points not the initial population", f"starting point {i + 1} {want} is not evaluated in its turn", None, None
                return
            for d, v in enumerate(row):
                yield "starting points not the initial population", f"starting point {i + 1}, coordinate {d}", first[j].xs[d], v
            pos = j + 1
        for i in range(n):
            yield "result worse than a starting point", f"the returned best, against starting point {i + 1}", o.best.target.fitness, self.fit_of(o, i)
        for i, row in enumerate(o.starts):
            for d, v in enumerate(row):
                yield "caller's starting points modified", f"starting point {i + 1}, coordinate {d}", harness.scal(o.start_arrays[i])[d], v

    def concrete(self, o, case):
        out, seen = [], set()
        if self.refused(o, case):
            return [(f"{cls_of(case)}|starting points not taken", f"{case.key()}: starting points given as {case.starting}: {o.error!r}")]
        for k, what, a, b in self.pairs(o):
            k = f"{cls_of(case)}|{k}"
            if k.endswith("result worse than a starting point"):
                x, y = float(val_of(a)), float(val_of(b))
                bad = x > y if case.minmax == "min" else x < y
            else:
                bad = a is None or abs(float(val_of(a)) - float(val_of(b))) > 1e-9
            if k not in seen and bad:
                seen.add(k)
                out.append((k, f"{case.key()}: {what}" + ("" if a is None else f" is {float(val_of(a))!r} instead of {float(val_of(b))!r}")))
        return out

    def goals(self, o, case, run):
        gs = {}
        if self.refused(o, case):
            yield f"{cls_of(case)}|starting points not taken", FALSE, 0, ""
            return
        for k, what, a, b in self.pairs(o):
            k = f"{cls_of(case)}|{k}"
            if a is None:
                gs[k] = FALSE
                continue
            try:
                g = n_not(better(b, a, case.minmax)) if k.endswith("worse than a starting point") else n_eq(core._real(core._num(node_of(a))), core._real(core._num(node_of(b))))
                gs[k] = n_and(gs.get(k, TRUE), g)
            except core.Poison:
                continue
        for k, g in gs.items():
            yield k, g, len(run.decisions), k


class PopSize(Judge):
    """the population keeps the size the user asked for"""
    prop = "C09"

    def shape(self, case, r):
        case.repeat = 1 if r.random() < 0.3 else False

    def want(self, o, case):
        c = cls_of(case)
        if c in VARIABLE_POPULATION or harness.in_harness(o) or getattr(o.opt, "history", None) is None:
            return None
        n = case.kwargs.get("pop_size")
        if n is None:
            return None
        return SIZE.get(c, lambda n: n)(n)

    @staticmethod
    def sizes(o):
        """of every finished epoch, and of the population the last one left, also when the run failed on it"""
        out = [len(p) for p in o.opt.history.list_population]
        if o.error is None or [fn for _, fn, _ in harness.mealpy_frames(o.tb)][1:2] in (["update_global_best_agent"], ["track_optimize_step"]):
            out.append(len(o.opt.pop))
        return out

    def concrete(self, o, case):
        want = self.want(o, case)
        if want is None:
            return []
        sizes = self.sizes(o)
        if any(s != want for s in sizes):
            return [(f"{cls_of(case)}|population size", f"{case.key()}: {want} agents expected, the epochs had {sizes[:-1]} and the final population {sizes[-1]}" + (f" ({o.error!r})" if o.error is not None else ""))]
        return []

    def goals(self, o, case, run):
        want = self.want(o, case)
        if want is not None:
            yield f"{cls_of(case)}|population size", TRUE if all(s == want for s in self.sizes(o)) else FALSE, 0, ""


class Untouched(Judge):
    """the problem's bounds and the caller's dictionary survive a run"""
    prop = "C33"

    def cases(self, cls):
        out = default_cases(cls, self.pop, full=False, warm=False)[:3]
        if out:
            out.append(H(cls.__name__, out[0].kwargs, "single", "max", fitmode="sphere", warm=8))
        return given_starts(out)

    def concrete(self, o, case):
        if o.error is not None or o.prob is None:
            return []
        c = cls_of(case)
        out = []
        want_lb = [v for l, _ in o.box for v in l]
        want_ub = [v for _, u in o.box for v in u]
        for what, got, want in (("problem.lb", harness.vals(harness.scal(o.opt.problem.lb)), want_lb), ("problem.ub", harness.vals(harness.scal(o.opt.problem.ub)), want_ub),
                                ("the variables' lb", [v for b in o.bounds for v in harness.vals(harness.scal(b.lb))], want_lb),
                                ("the variables' ub", [v for b in o.bounds for v in harness.vals(harness.scal(b.ub))], want_ub)):
            if list(got) != list(want):
                out.append((f"{c}|bounds changed", f"{case.key()}: after the run {what} is {list(got)} instead of {list(want)}"))
                break
        if list(o.prob) != list(o.prob_before) or any(o.prob[n] is not o.prob_before[n] for n in o.prob):
            out.append((f"{c}|problem dictionary changed", f"{case.key()}: {list(o.prob)}"))
        if o.opt.problem.minmax != case.minmax:
            out.append((f"{c}|direction changed", f"{case.key()}: {o.opt.problem.minmax}"))
        fresh = harness.get_cls(c)(**(dict(case.kwargs, epoch=case.warm + 1) if case.warm else case.kwargs))     # what construction settles on: some classes document a pop_size of their own
        kw = {n: getattr(fresh, n) for n in ("epoch", "pop_size") if n in case.kwargs and hasattr(fresh, n)}
        for n, v in kw.items():
            if n == "pop_size" and c in VARIABLE_POPULATION:
                continue
            if getattr(o.opt, n, v) != v:
                out.append((f"{c}|{n} changed", f"{case.key()}: {n} is {getattr(o.opt, n)} after the run instead of {v}"))
        return out

    def goals(self, o, case, run):
        if o.error is not None or o.prob is None:
            return
        n = len(run.decisions)
        g = TRUE
        for b, (l, u) in zip(o.bounds, o.box):
            for arr, want in ((b.lb, l), (b.ub, u)):
                for x, y in zip(harness.scal(arr), want):
                    if is_sym(x):
                        g = n_and(g, n_eq(core._real(node_of(x)), const(y)))
        yield f"{cls_of(case)}|bounds changed", g, n, "bounds are kept"


class Mixed(Judge):
    """problems that mix every kind of variable"""
    prop = "C34"

    def shape(self, case, r):
        case.mix = r.choice("AB")
        case.dims = 6 if case.mix == "A" else 7

    def cases(self, cls):
        out = default_cases(cls, self.pop, full=False, warm=False)[:2]
        for i, c in enumerate(out):
            c.mix = "AB"[i]
            c.dims = 6 if i == 0 else 7
        if out:
            out += [H(cls.__name__, out[0].kwargs, "swarm", "max", mix="A", dims=6, warm=6), H(cls.__name__, out[0].kwargs, "single", "min", mix="B", dims=7, fitmode="const", warm=6)]
        return out

    def concrete(self, o, case):
        if o.error is not None:
            return [(k, m) for k, m in Crash().concrete(o, case)]
        lb, ub = [v for l, _ in o.box for v in l], [v for _, u in o.box for v in u]
        out, seen = [], set()
        for e in o.evals:
            w = in_box(e.xs, lb, ub) or legal(case.mix, e.xs)
            if w:
                k = f"{cls_of(case)}|illegal point evaluated|{e.where}"
                if k not in seen:
                    seen.add(k)
                    out.append((k, f"{case.key()}: evaluation {e.k} (from {e.where}): {w}"))
        for where, a in agents_top(o):
            w = in_box(harness.scal(a.solution), lb, ub)
            if w:
                k = f"{cls_of(case)}|agent outside"
                if k not in seen:
                    seen.add(k)
                    out.append((k, f"{case.key()}: {where}: {w}"))
        return out + Consistent().concrete(o, case)

    def goals(self, o, case, run):
        lb, ub = [v for l, _ in o.box for v in l], [v for _, u in o.box for v in u]
        for e in o.evals:
            g = box_goal(e.xs, lb, ub)
            ns = nodes(e.xs)
            if ns is not None and len(ns) == len(lb):
                for x in ns[2:6] if case.mix == "A" else ns[3:7]:
                    d = core.n_or(n_eq(x, const(0.0)), n_eq(x, const(1.0)))
                    g = n_and(g, core.n_or(d, n_eq(x, const(2.0))) if case.mix == "A" else d)
            yield f"{cls_of(case)}|illegal point evaluated|{e.where}", g, e.nd, "evaluated point is legal"
        if o.error is None:
            n = len(run.decisions)
            for where, a in agents_top(o):
                yield f"{cls_of(case)}|agent outside", box_goal(harness.scal(a.solution), lb, ub), n, where
            yield from Consistent().goals(o, case, run)


class Saved(Judge):
    """a solved optimizer can be saved, and what is loaded is what was saved"""
    prop = "C31"

    def cases(self, cls):
        out = default_cases(cls, self.pop, full=False, warm=False)[:2]
        if len(out) > 1:
            out[1].mix, out[1].dims = "A", 6
        return out

    def load(self, o):
        from . import k_io
        if not hasattr(o, "loaded"):
            o.loaded, o.load_error = None, None
            try:
                p = k_io.Pickle()
                o.loaded = p.loads(p.dumps(o.opt))
                o.snap = k_io.snapshot(o.opt), k_io.snapshot(o.loaded)
            except Exception as e:
                o.load_error = f"{type(e).__name__}: {str(e)[:200]}"
        return o.loaded

    def leaves(self, a, b):
        """pairs of corresponding scalars, None where the shapes differ"""
        if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
            for k in a:
                yield from self.leaves(a[k], b[k])
        elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
            for x, y in zip(a, b):
                yield from self.leaves(x, y)
        elif isinstance(a, npshim.np.ndarray) and isinstance(b, npshim.np.ndarray):
            yield from self.leaves(harness.scal(a), harness.scal(b))
        elif isinstance(a, (dict, list, tuple)) or isinstance(b, (dict, list, tuple)):
            yield None
        else:
            yield a, b

    def concrete(self, o, case):
        if o.error is not None or o.opt is None:
            return []
        c = cls_of(case)
        if self.load(o) is None or o.load_error:
            return [(f"{c}|cannot be saved and loaded", f"{case.key()}: {o.load_error}")]
        a, b = o.snap
        out = []
        for part in a:
            for l in self.leaves(a[part], b.get(part)):
                if l is None or not eqleaf(*[val_of(v) for v in l]):
                    out.append((f"{c}|loaded {part} differs", f"{case.key()}: {part} of the loaded optimizer: {str(l)[:150]}"))
                    break
        return out

    def goals(self, o, case, run):
        if o.error is not None or o.opt is None or self.load(o) is None or o.load_error:
            return
        a, b = o.snap
        for part in a:
            g = TRUE
            for l in self.leaves(a[part], b[part]):
                if l is not None and (is_sym(l[0]) or is_sym(l[1])):
                    x, y = node_of(l[0]), node_of(l[1])
                    if x is not y:
                        g = n_and(g, n_eq(core._real(core._num(x)), core._real(core._num(y))))
            yield f"{cls_of(case)}|loaded {part} differs", g, len(run.decisions), part


def eqleaf(x, y):
    if isinstance(x, float) and isinstance(y, float) and x != x and y != y:
        return True
    return type(x) is type(y) and bool(x == y)


def legal(mix, xs):
    v = harness.vals(xs)
    if mix == "A" and sorted(v[2:5]) != [0.0, 1.0, 2.0]:
        return f"{v[2:5]} is not a corrected permutation"
    if mix == "A" and v[5] not in (0.0, 1.0, 2.0):
        return f"{v[5]} is not a corrected category"
    if mix == "B" and any(x not in (0.0, 1.0) for x in v[3:7]):
        return f"{v[3:7]} are not corrected bits and labels"
    return None


# documented as single-solution methods, or as methods that change the population size while they run
VARIABLE_POPULATION = {"OriginalSA", "GaussianSA", "OriginalHC", "OriginalTS", "L_SHADE", "OriginalLSHADEcnEpSin", "SAP_DE"}
# documented other sizes: an archive as large as the population; n parties of n members
SIZE = {"DevSARO": lambda n: 2 * n, "OriginalSARO": lambda n: 2 * n, "OriginalPO": lambda n: n * n}
