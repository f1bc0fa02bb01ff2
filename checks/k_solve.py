"""What solve() accepts and refuses (C35), and ways of saying the same thing (C36)."""
import os
import shutil
import tempfile
import types
import numpy as np
from symx import harness, npshim, core, rng, par
from symx.core import is_sym, val_of
from .kernels import conj, disj, neg, imp, close, flat, Skip
from .k_core import M, optimizer
from . import k_io

KERNELS = {c: {} for c in ("C35", "C36")}


def kernel(prop, name, **opts):
    def d(f):
        KERNELS[prop][name] = (f, opts)
        return f
    return d


class Os(types.ModuleType):
    """the os module on a machine with any number of cores"""

    def __init__(self, cpus):
        super().__init__("os")
        self.cpu_count = self.process_cpu_count = cpus

    def __getattr__(self, n):
        return getattr(os, n)


WORKERS = []


def machine(src, symbolic):
    ex = par.extra(src)
    bv = []
    for real, stub in ex["by_value"]:
        if isinstance(stub, type) and issubclass(stub, par.Pool):
            stub = type(stub.__name__, (stub,), {"__init__": counted(stub)})
            bv.append((real, stub))
    m = ex["by_value"][0][1]
    for real, stub in bv:
        setattr(m, stub.__name__, stub)
    del WORKERS[:]

    def cpus():
        return src.int("in.cpus", 1, 128, lambda: 8)
    o = Os(cpus)
    return {"by_value": [(ex["by_value"][0][0], m)] + bv + ex["by_value"][3:] + [(os, o), (os.cpu_count, cpus)]}


def counted(stub):
    def init(self, max_workers=None, *a, **kw):
        WORKERS.append(max_workers)
        stub.__init__(self, max_workers, *a, **kw)
    return init


def small(k, parallel=True, n_dims=2, pop=2, log=None):
    """an optimizer of two agents on a two-dimensional problem whose evaluations are logged"""
    log = [] if log is None else log
    o, p = optimizer(k, "min", n_dims, pop, lambda x: log.append(1) or float(len(log)), epoch=1)
    o.is_parallelizable = parallel
    return o, p, log


@kernel("C35", "modes and worker counts", extra=machine, budget=60., max_paths=3000)
def modes(k):
    o, p, log = small(k, k.flag("parallelizable"))
    mode = k.pick("mode", ("single", "swarm", "thread", "process", "Thread", "", "parallel", None, 1))
    w = k.int("workers", -3, 70) if k.flag("workers given") else k.pick("other workers", (None, "3", [3]))
    cpus = k.int("cpus", 1, 128)
    legal = mode in ("single", "swarm", "thread", "process")
    par_ = mode in ("thread", "process") and o.is_parallelizable
    number = isinstance(val_of(w), int)
    if not legal or (par_ and w is not None and not number):
        k.raises("an illegal mode or worker count is accepted", ValueError, o.solve, p, mode=mode, n_workers=w, seed=1)
        k.check("the objective was called by a refused run", not log)
        return
    ok = True
    if par_ and number:
        top = cpus - 1 if mode == "process" else cpus + 4
        ok = conj(w >= 2, w <= top, w <= (61 if mode == "process" else 32))
    try:
        o.solve(p, mode=mode, n_workers=w, seed=1)
    except ValueError:
        k.check("a legal mode and worker count are refused", neg(ok), f"{mode!r} with {w!r} workers on {cpus!r} cores")
        k.check("the objective was called by a refused run", not log)
        return
    k.check("an illegal worker count is accepted", ok, f"{mode!r} with {w!r} workers on {cpus!r} cores")
    k.check("mode of the run", o.mode == (mode if par_ or mode in ("single", "swarm") else "single"), f"{o.mode} instead of {mode}")
    k.check("evaluations", len(log) == 2)
    if par_:
        k.check("no pool was used", len(WORKERS) >= 1)
        want = 4 if w is None else w
        for n in WORKERS:
            k.check("number of workers of the pool", n is not None and n == want, f"{n!r} instead of {want!r}")
    else:
        k.check("a pool was used in a sequential mode", not WORKERS)


class Thing:
    pass


@kernel("C35", "what is not a problem", extra=machine)
def problems(k):
    m = M()
    o, p, log = small(k)
    v = m.FloatVar(lb=-1., ub=1.)
    bad = k.pick("bad", (None, 3, "problem", [v], v, Thing(), (p,)))
    k.raises("something that is no problem is accepted", ValueError, o.solve, bad, seed=1)
    b = k.pick("bounds", (None, 5, "x", {"a": v}, {v}, (x for x in [v]), m.FloatVar, [v, 3], [(-1., 1.)], ([v], v), [None], np.array([[-1., 1.]])))
    k.raises("bounds that are no variables are accepted", (ValueError, TypeError), o.solve, dict(p, bounds=b), seed=1)
    q = dict(p)
    del q["bounds"]
    k.raises("a problem without bounds is accepted", TypeError, o.solve, q, seed=1)
    k.check("the objective was called by a refused run", not log)
    check_usable(k, o, p, log)


def check_usable(k, o, p, log):
    """a refused call leaves the optimizer usable"""
    g = o.solve(p, seed=3)
    k.check("evaluations of the next run", len(log) == 2 and o.nfe_counter == 2)
    k.check("best of the next run", g.target.fitness == 1.)


@kernel("C35", "starting solutions of a wrong shape", extra=machine, budget=40., max_paths=2000)
def starts(k):
    o, p, log = small(k, n_dims=2, pop=2)
    n, d = k.pick("number", (0, 1, 2, 3)), k.pick("dimensions", (0, 1, 2, 3))
    kind = k.pick("kind", ("list", "tuple", "matrix", "arrays"))
    mode = k.pick("mode", ("single", "swarm", "thread"))
    d2 = k.pick("dimensions of the last", (d, 1)) if n == 2 and kind != "matrix" else d
    rows = [k.reals(f"s{i}.", d if i < n - 1 else d2, -5., 5.) for i in range(n)]
    s = {"list": lambda: rows, "tuple": lambda: tuple(tuple(r) for r in rows), "arrays": lambda: [k.arr(r) for r in rows],
         "matrix": lambda: npshim.asarr(rows) if k.symbolic else np.array(rows, dtype=float)}[kind]()
    if kind == "matrix" and (n == 0 or d == 0):
        return
    if n == 2 and d == d2 == 2:
        o.solve(p, mode=mode, starting_solutions=s, seed=1)
        k.check("evaluations", len(log) == 2)
        if mode == "single":
            k.eq("positions", [flat(a.solution) for a in o.pop], rows)
        return
    k.raises("starting solutions of a wrong shape are accepted", ValueError, o.solve, p, mode=mode, starting_solutions=s, seed=1)
    k.check("the objective was called by a refused run", not log)
    check_usable(k, o, p, log)


@kernel("C35", "what is no starting solution or termination", extra=machine)
def starts_bad(k):
    o, p, log = small(k)
    which = k.flag("termination")
    if which:
        bad = k.pick("bad termination", (3, "max_epoch", [("max_epoch", 3)], ("max_epoch",), Thing(), 2.5, {}, {"max_epoch": 0}, {"max_fe": "many"}, {"max_time": -1.}, {"max_early_stop": 0}, {"max_epoch": None}))
        k.raises("a wrong termination is accepted", ValueError, o.solve, p, termination=bad, seed=1)
    else:
        bad = k.pick("bad start", (3, "ab", {0: [1., 2.], 1: [1., 2.]}, [1., 2.], (1, 2), np.zeros(2), ["ab", "cd"], [None, None], {1, 2}))
        k.raises("wrong starting solutions are accepted", ValueError, o.solve, p, starting_solutions=bad, seed=1)
    k.check("the objective was called by a refused run", not log)
    check_usable(k, o, p, log)


@kernel("C35", "objectives that return nothing usable", extra=machine)
def objective_values(k):
    m = M()
    r = k.pick("value", (None, "1.0", {"f": 1.}, object, {1., 2.}))
    o, p = optimizer(k, "min", 2, 2, lambda x: r, epoch=1)
    mode = k.pick("mode", ("single", "swarm", "thread"))
    k.raises("an objective that returns no number is accepted", ValueError, o.solve, p, mode=mode, seed=1)


# ------------------------------------------------------------------ C36 the same thing said in two ways

def walk(k, epoch, pop, step, **kw):
    W = k_io.build()
    return W(epoch=epoch, pop_size=pop, step=step, **kw)


VARIANTS = ("object", "subclass", "list of one variable", "tuple of one variable", "array of one variable", "named mode", "keywords", "parameters set later", "populations kept", "to the console",
            "named", "workers ignored", "starting solutions as tuple", "starting solutions as matrix", "generous limit", "weights of one", "reused optimizer", "used problem", "problem used with the same seed", "used variables", "used termination", "to a file", "with data", "array valued objective", "several variables", "several variables, used object", "seed zero",
            "numpy numbers")


def quiet(folder):
    """close the log files again"""
    import logging
    for lg in list(logging.Logger.manager.loggerDict.values()):
        for h in list(getattr(lg, "handlers", [])):
            if isinstance(h, logging.FileHandler) and h.baseFilename.startswith(folder):
                lg.removeHandler(h)
                h.close()
    shutil.rmtree(folder, ignore_errors=True)


def same_run(k, variants):
    m = M()
    from mealpy.utils.problem import Problem
    from mealpy.utils.termination import Termination
    memo = {}
    order = []

    def f(x):
        key = tuple(float(val_of(v)) for v in flat(x))
        if key not in memo:
            memo[key] = k.real(f"fit{len(memo)}", -50., 50.)
        order.append(key)
        return memo[key]
    minmax = k.pick("minmax", ("min", "max"))
    var = lambda: m.FloatVar(lb=(-3., 1.), ub=(5., 4.), name="v")
    step = k.real("step", 0.5, 3.)
    start = [[0.5, 2.], [1., 3.]]
    v = k.pick("variant", variants)
    if v.startswith("several"):
        var = lambda: [m.FloatVar(lb=-3., ub=5., name="v"), m.FloatVar(lb=1., ub=4., name="w")]
    seed = 0 if v == "seed zero" else 9
    st = {"starting_solutions": [list(s) for s in start]} if v.startswith("starting") else {}

    n = 2 if v == "generous limit" else 1
    base = walk(k, n, 2, step)
    base.solve({"bounds": var(), "minmax": minmax, "obj_func": f, "log_to": None}, seed=seed, **st)
    first = list(order)
    del order[:]

    prob = {"bounds": var(), "minmax": minmax, "obj_func": f, "log_to": None}
    kw = {"seed": seed, **st}
    opt = walk(k, n, 2, step)
    if v == "object":
        prob = Problem(**prob)
    elif v in ("subclass", "with data"):
        class Mine(Problem):
            def __init__(self, bounds=None, minmax="min", data=None, **kw):
                self.data = data
                super().__init__(bounds, minmax, **kw)

            def obj_func(self, x):
                return f(x)
        prob = Mine(bounds=var(), minmax=minmax, log_to=None, **({"data": [1, 2, 3]} if v == "with data" else {}))
    elif v == "several variables":
        prob = Problem(**prob, seed=k.pick("seed of the object", (None, 9, 4)))
    elif v == "several variables, used object":
        prob = Problem(**prob)
        walk(k, 1, 2, step).solve(prob, seed=77)
        del order[:]
    elif v == "seed zero":
        prob["bounds"] = k.pick("bounds", (var(), [var()]))
        if k.flag("object"):
            prob = Problem(**prob, seed=k.pick("seed of the object", (None, 9)))
    elif v == "list of one variable":
        prob["bounds"] = [var()]
    elif v == "tuple of one variable":
        prob["bounds"] = (var(),)
    elif v == "array of one variable":
        a = np.empty(1, dtype=object)
        a[0] = var()
        prob["bounds"] = a
    elif v == "named mode":
        kw["mode"] = "single"
    elif v == "keywords":
        opt = k_io.build()(n, 2, step)
    elif v == "parameters set later":
        opt = walk(k, 5, 4, 0.25)
        opt.set_parameters({"epoch": n, "pop_size": 2, "step": step})
    elif v == "populations kept":
        prob["save_population"] = True
    elif v == "to the console":
        prob["log_to"] = "console"
    elif v == "named":
        opt = walk(k, n, 2, step, name="another name")
        prob["name"] = "another problem"
    elif v == "workers ignored":
        kw["n_workers"] = k.pick("n_workers", (1, 3, 1000))
    elif v == "starting solutions as tuple":
        kw["starting_solutions"] = tuple(tuple(s) for s in start)
    elif v == "starting solutions as matrix":
        kw["starting_solutions"] = np.array(start)
    elif v == "generous limit":
        kw["termination"] = k.pick("limit", ({"max_fe": 1000}, {"max_epoch": 50}, {"max_time": 1e5}, {"max_early_stop": 50}, {"max_epoch": 2}, Termination(max_fe=1000, max_epoch=7)))
    elif v == "weights of one":
        prob["obj_weights"] = k.pick("weights", ([1.], (1.,), 1., np.ones(1)))
    elif v == "reused optimizer":
        opt.solve({"bounds": m.FloatVar(lb=(-1.,), ub=(1.,)), "minmax": "min", "obj_func": lambda x: 1., "log_to": None}, seed=4)
    elif v == "used problem":
        prob = Problem(**prob)
        walk(k, 1, 2, step).solve(prob, seed=77)
        k.require(len(order) > 0)
        del order[:]
    elif v == "problem used with the same seed":
        prob = Problem(**prob)
        walk(k, 1, 2, step).solve(prob, seed=9)
        if k.flag("same optimizer"):
            opt.solve(prob, seed=9)
        del order[:]
    elif v == "used variables":
        walk(k, 1, 2, step).solve(dict(prob), seed=k.pick("seed before", (9, 3, None)))
        del order[:]
    elif v == "used termination":
        kw["termination"] = Termination(max_epoch=50, max_fe=1000, max_early_stop=40)
        walk(k, 2, 2, step).solve(dict(prob), seed=5, termination=kw["termination"])
        del order[:]
    elif v == "to a file":
        d = tempfile.mkdtemp(prefix="symx-log-")
        prob.update(log_to="file", log_file=os.path.join(d, "run.log"))
    elif v == "array valued objective":
        prob["obj_func"] = k.pick("form", (lambda x: [f(x)], lambda x: (f(x),), lambda x: k.arr([f(x)])))
    elif v == "numpy numbers":
        opt = walk(k, np.int64(n), np.int32(2), step)
    try:
        opt.solve(prob, **kw)
    finally:
        if v == "to a file":
            quiet(d)

    what = f"{v}: "
    k.check("other points are evaluated", len(first) == len(order) and first == order, what + f"{len(order)} evaluations instead of {len(first)}")
    a, b = k_io.snapshot(base), k_io.snapshot(opt)
    for part in ("best", "worst", "population", "global best", "current best", "global worst", "current worst", "best fitness", "current fitness", "diversity", "calls"):
        # targets carry their own weights: compare points and fitness
        k.check(f"another {part}", k_io.same(strip(a[part]), strip(b[part])), what + f"{part}: {str(b[part])[:120]} instead of {str(a[part])[:120]}")


for _i in range(8):
    kernel("C36", f"ways of describing the same run: {', '.join(VARIANTS[_i::8])}", extra=machine, budget=60., max_paths=3000, path_s=25, floor=20.)(lambda k, vs=VARIANTS[_i::8]: same_run(k, vs))


def strip(x):
    if isinstance(x, tuple) and len(x) == 4:
        return x[:2]
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


@kernel("C36", "optimizers found by name", budget=60., path_s=25, floor=15.)
def by_name(k):
    m = M()
    names = sorted(m.get_all_optimizers(verbose=False))
    n = names[int(val_of(k.int("which", 0, len(names) - 1)))] if not k.symbolic else k.pick("which", names)
    cls = m.get_optimizer_by_class(n)
    k.check("another class", isinstance(cls, type) and cls.__name__ == n and issubclass(cls, m.Optimizer) and cls is not m.Optimizer)
    mod = cls.__module__.rsplit(".", 1)[1]
    inside = m.get_optimizer_by_name(mod)
    k.check("missing in its module", inside.get(n) is cls, f"{n} is not among {list(inside)}")
    k.check("module attribute", getattr(getattr(m, mod), n) is cls)
    o = cls()
    k.check("name", o.get_name() == n and o.__class__ is cls)
    k.check("text", str(o).startswith(n + "(") and all(f"{p}={o.parameters[p]}" in str(o) for p in o.parameters))
