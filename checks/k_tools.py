"""Parameter grids, the tuner, the multitask runner and what they leave alone (C25, C26, C27, C33)."""
import copy
import itertools
import json
import math
import os
import shutil
import tempfile
import numpy as np
from symx import harness, npshim, core, par, pdshim
from symx.core import is_sym, val_of
from .kernels import conj, disj, neg, imp, close, flat, Skip
from .k_core import M, mm, best_of, better_eq, better, optimizer

KERNELS = {c: {} for c in ("C25", "C26", "C27", "C33")}


def kernel(prop, name, **opts):
    def d(f):
        KERNELS[prop][name] = (f, opts)
        return f
    return d


def pandas_too(src, symbolic):
    ex = {"by_value": list(par.extra(src)["by_value"])}
    if symbolic:
        ex["by_value"] += pdshim.extra(src)["by_value"]
    return ex


# ------------------------------------------------------------------ C25 parameter grids

GRIDS = [({"a": [1, 2], "b": [True, False]}, 4), ({"a": [1]}, 1), ({}, 1), ({"z": [3, 1, 2], "a": ["x", "y"], "m": [0.5]}, 6),
         ([{"kernel": ["linear"]}, {"kernel": ["rbf"], "gamma": [1, 10]}], 3), ([{}, {"a": [1, 2]}, {}, {"b": [3, 3, 3]}], 7), ([], 0),
         ({"a": (1, 2), "b": np.array([5, 6, 7])}, 6), ([{"a": [1, 2], "c": [1, 2, 3]}, {"b": [1, 2]}], 8)]


def points(g):
    out = []
    for p in ([g] if isinstance(g, dict) else g):
        keys = list(p)
        for v in itertools.product(*[list(p[n]) for n in keys]):
            out.append(dict(zip(keys, v)))
    return out


@kernel("C25", "indexing agrees with iteration", max_paths=3000)
def grid_index(k):
    from mealpy.tuner import ParameterGrid
    gi = k.pick("grid", range(len(GRIDS)))
    g, n = GRIDS[gi]
    want = points(copy.deepcopy(g))
    pg = ParameterGrid(g)
    k.check("length", len(pg) == n == len(want))
    i = k.int("index", 0, 12)
    try:
        got = pg[i]
    except IndexError:
        k.check("an index inside the grid is refused", i >= n)
        return
    j = int(val_of(i))
    k.check("an index outside the grid is accepted", i < n)
    for x in range(n):
        if x == j:
            k.check("another point than iteration gives", imp(i == x, dict(got) == want[x]), f"grid {g}: [{j}] is {got}, iteration gives {want[x] if j < n else None}")
    k.check("keys", list(got) == list(want[j]) if j < n else False)


@kernel("C25", "iteration covers the product")
def grid_iter(k):
    from mealpy.tuner import ParameterGrid
    vals = {"a": k.reals("a", k.pick("na", (1, 2, 3))), "b": k.reals("b", k.pick("nb", (1, 2)))}
    if k.flag("c"):
        vals["c"] = [k.real("c")]
    g = ParameterGrid(vals)
    got = list(g)
    want = points(vals)
    k.check("length", len(got) == len(g) == len(want))
    for x, y in zip(got, want):
        k.check("keys", list(x) == list(y))
        k.eq("values", [x[n] for n in y], [y[n] for n in y])
    for i, y in enumerate(want):
        k.eq("indexing", [g[i][n] for n in y], [y[n] for n in y])
    k.check("iterating twice gives another result", len(list(g)) == len(want))


@kernel("C25", "what is not a grid is refused")
def grid_bad(k):
    from mealpy.tuner import ParameterGrid
    t = k.pick("type", (5, [1], ["a"], {"a": 3}, {"a": "abc"}, {"a": None}, [{"a": [1]}, 7]))
    k.raises("a wrong type is accepted", TypeError, ParameterGrid, t)
    v = k.pick("value", ({"a": []}, {"a": np.zeros((2, 2))}, {"a": [1], "b": ()}))
    k.raises("an empty or two-dimensional list is accepted", ValueError, ParameterGrid, v)


# ------------------------------------------------------------------ C26 tuner

def fixed(k):
    """initial positions that are plain numbers (no decisions about diversity)"""
    n = [0]

    def generate_agent(self, solution=None):
        n[0] += 1
        if solution is None:
            solution = np.array([float(n[0] % 3)] * self.problem.n_dims)
        return M().Optimizer.generate_agent(self, solution)
    return {"generate_agent": generate_agent}

def stub(k, log, fit, minmax, pop_size=2):
    """an optimizer with a parameter c, and a problem whose objective is constant during a run; log gets one entry per evaluation"""
    state = {"run": -1}

    def solve_start(self):
        state["run"] += 1
        self._run = state["run"]
        log.append({"c": self.c, "epoch": self.epoch, "pop_size": self.pop_size, "mode": self.mode, "term": self.termination, "evals": 0, "epochs": 0, "problem": self.problem.name})

    def evolve(self, e):
        log[-1]["epochs"] += 1

    o, p = optimizer(k, minmax, 1, pop_size, None, epoch=1, body={"evolve": evolve, "initialize_variables": solve_start, **fixed(k)})
    o.c = 0
    o.set_parameters(["epoch", "pop_size", "c"])

    def obj(x):
        log[-1]["evals"] += 1
        return fit(state["run"], log[-1])
    p["obj_func"] = obj
    p["name"] = "P"
    return o, p


def mean(xs):
    t = xs[0]
    for x in xs[1:]:
        t = t + x
    return t * (1. / len(xs))


@kernel("C26", "the best parameters win", budget=70., max_paths=4000, extra=pandas_too)
def tuner_best(k):
    minmax = mm(k)
    cs = k.pick("grid", ([1, 2], [5, 1, 3]))
    trials = k.pick("trials", (1, 2, 3)) if len(cs) == 2 else 1
    fits = {}
    log = []

    def fit(run, entry):
        if run not in fits:
            fits[run] = k.real(f"fit{run}", -50., 50.)
        return fits[run]
    o, p = stub(k, log, fit, minmax)
    t = M().Tuner(o, {"c": cs})
    t.execute(problem=p, n_trials=trials, n_jobs=k.pick("jobs", (None, 1)), verbose=False)
    k.check("number of runs", len(log) == len(cs) * trials)
    k.check("parameters of the runs", [e["c"] for e in log] == [c for c in cs for _ in range(trials)], f"{[e['c'] for e in log]}")
    means = [mean([fits[i * trials + j] for j in range(trials)]) for i in range(len(cs))]
    c = t.best_params.get("c")
    k.check("the best parameters are not of the grid", c in cs and list(t.best_params) == ["c"])
    b = cs.index(c)
    for i in range(len(cs)):
        k.check("another point has a better mean", disj(better_eq(means[b], means[i], minmax), close(means[b], means[i])), f"c={c} {minmax} means {[val_of(m_) for m_ in means]}")
        if trials == 2:
            sb, si = [abs(fits[2 * j] - fits[2 * j + 1]) for j in (b, i)]
            k.check("another point with the same mean varies less", imp(means[b] == means[i], sb <= si + 1e-7))
    k.eq("best score", t.best_score, means[b])
    df = t.df_fit
    for i in range(len(cs)):
        for j in range(trials):
            k.eq("table of results", list(df[f"trial_{j + 1}"].values)[i], fits[i * trials + j])
        k.eq("mean in the table of results", list(df["trial_mean"].values)[i], means[i])
        if trials == 2:
            k.eq("deviation in the table of results", list(df["trial_std"].values)[i] * math.sqrt(2.), abs(fits[2 * i] - fits[2 * i + 1]))
    k.check("best row", len(t.best_row) >= 1 and t.best_row["params"].values[0] == {"c": c})


@kernel("C26", "solving with the best parameters", budget=40., extra=pandas_too)
def tuner_resolve(k):
    minmax = mm(k)
    log = []
    fs = k.reals("f", 2, -50., 50.)
    last = k.real("last", -50., 50.)
    o, p = stub(k, log, lambda run, e: fs[run] if run < 2 else last, minmax)
    as_object = k.flag("problem object")
    t = M().Tuner(o, {"c": [7, 8], "epoch": [2]})
    prob = p
    if as_object:
        from mealpy.utils.problem import Problem

        class Prob(Problem):
            def obj_func(self, x):
                return p["obj_func"](x)
        prob = Prob(bounds=p["bounds"], minmax=minmax, log_to=None)
    t.execute(problem=prob, n_trials=1, verbose=False, mode=k.pick("mode", ("single", "swarm")))
    if k.flag("best algorithm asked for first"):
        a = t.best_algorithm
        k.check("best algorithm before solving with it", a is o and a.c == t.best_params["c"] and a.get_parameters()["c"] == t.best_params["c"])
    g = t.resolve(mode="swarm")
    k.check("parameters of the last run", len(log) == 3 and log[2]["c"] == t.best_params["c"] and log[2]["epoch"] == 2)
    k.check("mode of the last run", log[2]["mode"] == "swarm")
    k.eq("result of the last run", g.target.fitness, last)
    a = t.best_algorithm
    k.check("best algorithm", a is o and a.get_parameters()["c"] == t.best_params["c"] and a.c == t.best_params["c"])


@kernel("C26", "solving gets what it is given", budget=40., extra=pandas_too)
def tuner_resolve_args(k):
    """starting points, termination and number of workers of resolve"""
    log, seen = [], []
    first = k.real("x0", 0., 1.)
    o, p = stub(k, log, lambda run, e: 0., "min")
    real = type(o).generate_agent

    def generate_agent(self, solution=None):
        seen.append(None if solution is None else harness.scal(solution)[0])
        return real(self, solution)
    type(o).generate_agent = generate_agent
    t = M().Tuner(o, {"c": [7, 8], "epoch": [4]})
    t.execute(problem=p, n_trials=1, verbose=False)
    n = len(seen)
    given = k.flag("starting solutions")
    term = k.pick("termination", (None, {"max_epoch": 2}))
    mode, w = k.pick("mode", (("single", None), ("thread", 3)))
    if mode == "thread" and given:
        raise Skip
    t.resolve(mode=mode, n_workers=w, termination=term, starting_solutions=[[first], [0.5]] if given else None)
    k.check("epochs of the last run", log[-1]["epochs"] == (4 if term is None else 2), f"{log[-1]['epochs']}")
    k.check("mode and workers of the last run", log[-1]["mode"] == mode and (w is None or o.n_workers == w))
    if given:
        xs = [x for x in seen[n:] if x is not None]
        k.check("starting solutions of the last run", len(xs) == 2 and conj(xs[0] == first, xs[1] == 0.5))


@kernel("C26", "every run gets the settings of the search", budget=40., extra=pandas_too)
def tuner_settings(k):
    log = []
    o, p = stub(k, log, lambda run, e: float(run), "min")
    if k.flag("no direction"):
        del p["minmax"]
    mode = k.pick("mode", ("single", "swarm", "nonsense"))
    term = k.pick("termination", (None, {"max_epoch": 1}, "object"))
    if term == "object":
        term = M().Termination(max_epoch=1)
    trials = k.pick("trials", (1, 3))
    t = M().Tuner(o, {"epoch": [3], "pop_size": [2, 3]})
    t.execute(problem=p, n_trials=trials, mode=mode, termination=term, verbose=False)
    k.check("number of runs", len(log) == 2 * trials)
    for i, e in enumerate(log):
        k.check("mode", e["mode"] == (mode if mode != "nonsense" else "single"))
        k.check("epochs", e["epochs"] == (1 if term is not None else 3))
        k.check("population", e["pop_size"] == 2 + i // trials and e["evals"] == e["pop_size"])
    df = t.df_loss
    k.check("rows of the convergence table", len(df) == 2 * trials)
    k.check("trials of the convergence table", list(df["trial"].values) == list(range(trials)) * 2)
    for ep in range(1, (1 if term is not None else 3) + 1):
        k.eq("convergence", list(df[ep].values), [float(i) for i in range(2 * trials)])
    k.check("best of the search", t.best_params["pop_size"] == 2)


@kernel("C26", "trials in parallel", budget=40., extra=pandas_too)
def tuner_jobs(k):
    minmax = mm(k)
    log = []
    fs = {5: k.real("f5", -50., 50.), 6: k.real("f6", -50., 50.)}
    o, p = stub(k, log, lambda run, e: fs[e["c"]], minmax)
    t = M().Tuner(o, {"c": [5, 6]})
    t.execute(problem=p, n_trials=2, n_jobs=2, verbose=False)
    c = t.best_params["c"]
    k.check("the worse point wins", better_eq(fs[c], fs[11 - c], minmax))
    for j in (1, 2):
        k.eq("table of results", list(t.df_fit[f"trial_{j}"].values), [fs[5], fs[6]])
    k.check("trials of the convergence table", list(t.df_loss["trial"].values) == [0, 1, 0, 1] and list(t.df_loss["c"].values) == [5, 5, 6, 6])


@kernel("C26", "what cannot be tuned is refused")
def tuner_bad(k):
    T = M().Tuner
    o = M().PSO.OriginalPSO()
    k.raises("not an optimizer", ValueError, T, k.pick("algorithm", ("PSO", None, 5)), {"epoch": [1]})
    k.raises("not a grid", ValueError, T, o, k.pick("grid", (None, 5, "epoch")))
    n = k.int("n_trials", -3, 3)
    t = T(o, {"nonsense": [1]})
    try:
        t.execute(problem={"obj_func": lambda x: 0., "bounds": M().FloatVar(lb=(0.,), ub=(1.,)), "log_to": None}, n_trials=n, verbose=False)
        k.check("an unknown parameter is accepted", False)
    except ValueError as e:
        k.check("an illegal number of trials is not what is complained about", disj(n >= 1, "n_trials" in str(e)))


# ------------------------------------------------------------------ C27 multitask

def scratch():
    return tempfile.mkdtemp(prefix="symx-mt-")


def read(path, ext, symbolic):
    """{column: values} of a written result"""
    f = f"{path}.{ext}"
    if symbolic:
        return {str(a): list(b) for a, b in pdshim.FILES[f].items()} if f in pdshim.FILES else None
    import pandas as pd
    if not os.path.exists(f):
        return None
    df = pd.read_csv(f) if ext == "csv" else pd.read_pickle(f) if ext == "pkl" else pd.read_json(f)
    return {str(c): [float("nan") if v is None else v for v in df[c].values.tolist()] for c in df.columns}


def multi(k, na, np_, terms, modes, trials=1, jobs=None, save_as="csv", conv=False, fit=None, minmax="min", epochs=3, workers=None):
    log = []
    cur = {}
    algs, probs = [], []
    for a in range(na):
        def start(self, a=a):
            cur["a"] = a
            cur["n"] = 0
            log.append({"a": a, "p": self.problem.name, "mode": self.mode, "term": self.termination, "epochs": 0, "workers": self.n_workers})

        def evolve(self, e):
            log[-1]["epochs"] += 1
            cur["n"] += 1
        o, p = optimizer(k, minmax, 1, 2, None, epoch=epochs, body={"evolve": evolve, "initialize_variables": start, **fixed(k)})
        o.name = f"Alg{a}"
        algs.append(o)
    for b in range(np_):
        def obj(x, b=b):
            return fit(cur["a"], b, len(log) - 1) if fit else float(cur["a"] * 10 + b)
        q = dict(p)
        q.update(obj_func=obj, name=f"Prob{b}")
        probs.append(q)
    d = scratch()
    try:
        mt = M().Multitask(algorithms=algs, problems=tuple(probs), terminations=terms, modes=modes, n_workers=workers)
        mt.execute(n_trials=trials, n_jobs=jobs, save_path=d, save_as=save_as, save_convergence=conv, verbose=False)
        ext = {"csv": "csv", "json": "json", "dataframe": "pkl"}[save_as]
        best = [read(f"{d}/best_fit/Alg{a}_best_fit", ext, k.symbolic) for a in range(na)]
        cv = [[read(f"{d}/convergence/Alg{a}/Prob{b}_convergence", ext, k.symbolic) for b in range(np_)] for a in range(na)]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return log, best, cv


@kernel("C27", "every algorithm runs on every problem", budget=40., extra=pandas_too)
def mt_all(k):
    na, nb = k.pick("shape", ((1, 1), (2, 1), (1, 3), (2, 3)))
    trials = k.pick("trials", (1, 2))
    fs = {}

    def fit(a, b, run):
        if run not in fs:
            fs[run] = k.real(f"f{run}", -50., 50.)
        return fs[run]
    save = k.pick("save_as", ("csv", "json", "dataframe"))
    conv = k.flag("convergence")
    log, best, cv = multi(k, na, nb, None, None, trials=trials, save_as=save, conv=conv, fit=fit, jobs=k.pick("jobs", (None, 1)))
    k.check("pairs", [(e["a"], e["p"]) for e in log] == [(a, f"Prob{b}") for a in range(na) for b in range(nb) for _ in range(trials)])
    k.check("default mode and termination", all(e["mode"] == "single" and e["term"] is None and e["epochs"] == 3 for e in log))
    run = 0
    for a in range(na):
        k.check("written results", best[a] is not None and list(best[a]) == [f"Prob{b}" for b in range(nb)])
        for b in range(nb):
            want = [fs[run + j] for j in range(trials)]
            k.eq("best fitness of the trials", best[a][f"Prob{b}"], want, tol=1e-6)
            if conv:
                k.check("written convergence", cv[a][b] is not None and list(cv[a][b]) == [f"trial_{j + 1}" for j in range(trials)])
                for j in range(trials):
                    k.eq("convergence of a trial", cv[a][b][f"trial_{j + 1}"], [want[j]] * 3, tol=1e-6)
            else:
                k.check("convergence not asked for", cv[a][b] is None)
            run += trials


def shapes(na, nb, items):
    """(values, expected[a][b]) for every documented length"""
    out = [([items[0]], [[items[0]] * nb for _ in range(na)])]
    if na != nb:
        out.append((items[:na], [[items[a]] * nb for a in range(na)]))
        out.append((items[:nb], [[items[b] for b in range(nb)] for _ in range(na)]))
    out.append((items[:na * nb], [[items[a * nb + b] for b in range(nb)] for a in range(na)]))
    return out


@kernel("C27", "modes and terminations reach their pair", budget=60., extra=pandas_too, max_paths=2000)
def mt_route(k):
    na, nb = k.pick("shape", ((2, 3), (3, 2), (2, 2), (1, 2), (2, 1)))
    md = ["single", "swarm", "swarm", "single", "swarm", "single"]
    tm = [{"max_epoch": e} for e in (1, 2, 3, 4, 5, 6)]
    ms, ts = shapes(na, nb, md), shapes(na, nb, tm)
    # lists of length one mean "for all" whatever the numbers of algorithms and problems are
    mi = k.pick("modes", range(len(ms) + 1))
    ti = k.pick("terminations", range(len(ts) + 1))
    modes, wm = ms[mi] if mi < len(ms) else (None, [["single"] * nb] * na)
    terms, wt = ts[ti] if ti < len(ts) else (None, [[None] * nb] * na)
    log, best, cv = multi(k, na, nb, tuple(terms) if terms and mi == 0 else terms, modes, epochs=7)
    k.check("number of runs", len(log) == na * nb)
    for e in log:
        a, b = e["a"], int(e["p"][4:])
        k.check("mode of another pair", e["mode"] == wm[a][b], f"{na}x{nb} modes {modes}: algorithm {a} problem {b} ran in mode {e['mode']}")
        k.check("termination of another pair", e["epochs"] == (7 if wt[a][b] is None else wt[a][b]["max_epoch"]), f"{na}x{nb} terminations {terms}: algorithm {a} problem {b} ran {e['epochs']} epochs")


@kernel("C27", "number of workers", budget=40., extra=pandas_too)
def mt_workers(k):
    w = k.pick("n_workers", (None, 2, 3))
    log, best, cv = multi(k, 1, 2, None, [k.pick("mode", ("thread", "process"))], workers=w)
    k.check("number of workers of a run", all(e["workers"] == (w or 4) for e in log), f"{w} given, {[e['workers'] for e in log]} used")


@kernel("C27", "wrong lists are refused")
def mt_bad(k):
    m = M()
    na, nb = 2, 3
    algs = [m.PSO.OriginalPSO() for _ in range(na)]
    probs = [{"obj_func": lambda x: 0., "bounds": m.FloatVar(lb=(0.,), ub=(1.,)), "log_to": None} for _ in range(nb)]
    n = k.pick("length", (0, 1, 2, 3, 4, 5, 6, 7))
    which = k.pick("which", ("modes", "terminations"))
    v = ["single"] * n if which == "modes" else [{"max_epoch": 1}] * n
    try:
        m.Multitask(algorithms=algs, problems=probs, **{which: v})
        k.check("a list of a wrong length is accepted", n in (1, 2, 3, 6), f"{which} of length {n}")
    except ValueError:
        k.check("a list of a legal length is refused", n not in (1, 2, 3, 6), f"{which} of length {n}")
    k.raises("not a list", ValueError, m.Multitask, algs, probs, None, k.pick("bad", ("single", 5)))
    k.raises("no algorithms", ValueError, m.Multitask, k.pick("algorithms", (None, (), 5)), probs)
    k.raises("no problems", ValueError, m.Multitask, algs, k.pick("problems", (None, [], "x")))


@kernel("C27", "trials in parallel", budget=40., extra=pandas_too)
def mt_jobs(k):
    trials = 3
    na, nb = k.pick("shape", ((1, 2), (2, 1)))
    f = {0: k.real("f0", -50., 50.), 1: k.real("f1", -50., 50.)}
    log, best, cv = multi(k, na, nb, [{"max_epoch": 2}], None, trials=trials, jobs=2, conv=True, fit=lambda a, b, run: f[a] + b)
    for a in range(na):
        for b in range(nb):
            k.eq("best fitness of the trials", best[a][f"Prob{b}"], [f[a] + b] * trials, tol=1e-6)
            k.check("trials", list(cv[a][b]) == ["trial_1", "trial_2", "trial_3"])


@kernel("C27", "trials of different lengths", budget=40., extra=pandas_too)
def mt_pad(k):
    """early stopping makes trials of different lengths: the shorter ones are padded, nothing is lost"""
    steps = [[k.pick(f"s{t}{e}", (0., 1.)) for e in range(3)] for t in range(2)]
    d = scratch()
    cur = {"t": -1}

    def start(self):
        cur["t"] += 1
        cur["e"] = 0

    def evolve(self, e):
        cur["e"] = e
        self.pop = [self.generate_agent() for _ in range(2)]
    o, p = optimizer(k, "min", 1, 2, None, epoch=3, body={"evolve": evolve, "initialize_variables": start, **fixed(k)})
    o.name = "Alg"
    p.update(obj_func=lambda x: -sum(steps[cur["t"]][:cur["e"]]), name="Prob")
    try:
        mt = M().Multitask(algorithms=[o], problems=[p], terminations=[{"max_early_stop": 1}])
        mt.execute(n_trials=2, save_path=d, save_convergence=True)
        cv = read(f"{d}/convergence/Alg/Prob_convergence", "csv", k.symbolic)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    lens = []
    for t in range(2):
        n = 3
        for e in range(3):
            if steps[t][e] == 0:
                n = e + 1
                break
        lens.append(n)
    for t in range(2):
        got = cv[f"trial_{t + 1}"]
        want = [-sum(steps[t][:e + 1]) for e in range(lens[t])]
        k.check("length", len(got) == max(lens))
        k.eq("convergence of a trial", got[:lens[t]], want)
        k.check("padding", all(v != v for v in got[lens[t]:]))


# ------------------------------------------------------------------ C33 the caller's objects

@kernel("C33", "problem, starting points and termination stay as they were", budget=40.)
def untouched(k):
    m = M()
    from mealpy.utils.problem import Problem
    minmax = mm(k)
    mode = k.pick("mode", ("single", "swarm"))
    lb, ub = [-3., -2.], [4., 6.]
    w = [0.5, 2.]
    count = itertools.count(1.)
    var = m.FloatVar(lb=lb, ub=ub, name="v") if k.flag("one variable") else [m.FloatVar(lb=lb[0], ub=ub[0], name="a"), m.FloatVar(lb=lb[1], ub=ub[1], name="b")]
    o, p = optimizer(k, minmax, 2, 2, lambda x: [3., next(count)], epoch=1, body={"evolve": lambda self, e: setattr(self, "pop", [self.generate_agent() for _ in range(2)]), **fixed(k)})
    p.update(bounds=var, obj_weights=w, name="mine", data=[1, 2])
    for n in k.pick("left out", ((), ("minmax",), ("obj_weights", "name"), ("log_to",))):
        del p[n]
    before = dict(p)
    s = [k.reals("s0.", 2, -2., 4.), k.reals("s1.", 2, -2., 4.)]
    keep = copy.copy(s[0]), copy.copy(s[1])
    start = s if k.flag("list") else [k.arr(x) for x in s]
    term = {"max_epoch": 5, "max_fe": 1000} if k.flag("termination") else None
    tk = dict(term) if term else None
    o.solve(p, mode=mode, starting_solutions=start, termination=term, seed=4)
    k.check("keys of the problem", list(p) == list(before))
    for n in before:
        k.check(f"problem's {n}", p[n] is before[n])
    k.check("bounds lists", lb == [-3., -2.] and ub == [4., 6.])
    k.check("weights", w == [0.5, 2.])
    k.check("data", "data" in p and p["data"] == [1, 2])
    k.check("termination", term == tk)
    k.check("starting points", len(start) == 2)
    for a, b in zip(start, keep):
        k.eq("starting points", flat(a), b, tol=0.)
    vs = var if isinstance(var, list) else [var]
    k.check("variables", flat([x for v in vs for x in flat(v.lb)]) == [-3., -2.] and [x for v in vs for x in flat(v.ub)] == [4., 6.])


@kernel("C33", "a problem object can be solved again", budget=40.)
def reuse_problem(k):
    m = M()
    from mealpy.utils.problem import Problem
    minmax = mm(k)
    calls = []

    class Prob(Problem):
        def obj_func(self, x):
            v = k.real(f"f{len(calls)}", -50., 50.)
            calls.append((harness.scal(x), v))
            return v
    pb = Prob(bounds=[m.FloatVar(lb=-1., ub=2., name="a"), m.IntegerVar(lb=0, ub=5, name="b")], minmax=minmax, log_to=None)
    lb, ub, nd = list(pb.lb), list(pb.ub), pb.n_dims
    body = {"evolve": lambda self, e: None}
    out = []
    for i in range(2):
        n0 = len(calls)
        o, _ = optimizer(k, minmax, 2, 2, None, epoch=1, body=body)
        g = o.solve(pb, seed=3 + i)
        fs = [v for _, v in calls[n0:]]
        k.check("the optimizer works on another problem object", o.problem is pb)
        k.eq("best of the run", g.target.fitness, best_of(fs[-2:], minmax))
    k.check("bounds", list(pb.lb) == lb and list(pb.ub) == ub and pb.n_dims == nd)


@kernel("C33", "tuner and multitask leave their inputs", budget=40., extra=pandas_too)
def tools_untouched(k):
    m = M()
    log = []
    o, p = stub(k, log, lambda run, e: k.real(f"f{run}", -5., 5.), "min")
    for n in k.pick("left out", ((), ("minmax",), ("name",), ("minmax", "name"))):
        del p[n]
    before = dict(p)
    grid = {"c": [1, 2], "epoch": [1]}
    term = {"max_epoch": 3}
    t = m.Tuner(o, grid)
    t.execute(problem=p, n_trials=1, termination=term, verbose=False)
    k.check("grid", grid == {"c": [1, 2], "epoch": [1]})
    k.check("termination", term == {"max_epoch": 3})
    k.check("problem", list(p) == list(before) and all(p[n] is before[n] for n in before))
    algs, probs, terms, modes = [o], [p], [term], ["swarm"]
    d = scratch()
    try:
        m.Multitask(algorithms=algs, problems=probs, terminations=terms, modes=modes).execute(n_trials=1, save_path=d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    k.check("lists", len(algs) == len(probs) == len(terms) == len(modes) == 1 and algs[0] is o and probs[0] is p and terms[0] is term)
    k.check("problem", list(p) == list(before) and all(p[n] is before[n] for n in before))
    k.check("termination", term == {"max_epoch": 3})
