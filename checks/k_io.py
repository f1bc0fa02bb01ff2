"""Saving and loading models (C31) and the series that charts draw (C32)."""
import copy
import io as _io
import os
import pickle
import shutil
import tempfile
import types
import numpy as np
from symx import harness, npshim, core, rng, par
from symx.core import is_sym, val_of
from .kernels import conj, disj, neg, imp, close, flat, Skip
from .k_core import M, optimizer

KERNELS = {c: {} for c in ("C31", "C32")}


def kernel(prop, name, **opts):
    def d(f):
        KERNELS[prop][name] = (f, opts)
        return f
    return d


# ------------------------------------------------------------------ pickle, with symbolic values passed by reference

TOKENS = {}


def token(x):
    """what the real pickle cannot write: symbolic scalars and the stand-ins of the environment"""
    if is_sym(x) or isinstance(x, (rng.Gen, harness.Objective, rng.Source)) or (isinstance(x, types.FunctionType) and (x.__module__ or "").split(".")[0] in ("symx", "checks")):
        TOKENS[id(x)] = x
        return ("symbolic", id(x))
    return None


class Pickler(pickle.Pickler):
    def __init__(self, f, *a, **kw):
        super().__init__(f)

    def persistent_id(self, x):
        return token(x)


class Unpickler(pickle.Unpickler):
    def __init__(self, f, **kw):
        super().__init__(f)

    def persistent_load(self, pid):
        return TOKENS[pid[1]]


class Pickle(types.ModuleType):
    """the pickle module: the same C implementation"""

    def __init__(self):
        super().__init__("pickle")
        self.Pickler, self.Unpickler = Pickler, Unpickler

    def dump(self, obj, file, *a, **kw):
        Pickler(file).dump(obj)

    def dumps(self, obj, *a, **kw):
        f = _io.BytesIO()
        Pickler(f).dump(obj)
        return f.getvalue()

    def load(self, file, **kw):
        return Unpickler(file).load()

    def loads(self, data, **kw):
        return Unpickler(_io.BytesIO(data)).load()

    def __getattr__(self, n):
        return getattr(pickle, n)


def stand_in(src, symbolic):
    p = Pickle()
    return {"by_value": [(pickle, p), (pickle.dump, p.dump), (pickle.load, p.load), (pickle.dumps, p.dumps), (pickle.loads, p.loads)]}


class Scratch:
    """a temporary working directory"""

    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix="verif_io_")
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)


class C:
    """what the objective of this run returns"""
    f = None


def objective(x):
    return C.f(x)


def build(epoch=2, pop=2):
    m = M()
    if "Walk" not in globals():
        class Walk(m.Optimizer):
            def __init__(self, epoch=3, pop_size=3, step=1.0, **kwargs):
                super().__init__(**kwargs)
                self.epoch = self.validator.check_int("epoch", epoch, [1, 100])
                self.pop_size = self.validator.check_int("pop_size", pop_size, [2, 100])
                self.step = self.validator.check_float("step", step, (0, 10.))
                self.set_parameters(["epoch", "pop_size", "step"])
                self.sort_flag = False

            def evolve(self, epoch):
                for i in range(self.pop_size):
                    x = self.correct_solution(self.pop[i].solution + self.step * self.generator.uniform(-1., 1., self.problem.n_dims))
                    a = self.generate_empty_agent(x)
                    a.target = self.get_target(x)
                    if i == 0 or self.compare_target(a.target, self.pop[i].target, self.problem.minmax):
                        self.pop[i] = a
        Walk.__module__, Walk.__qualname__ = __name__, "Walk"
        globals()["Walk"] = Walk
    return globals()["Walk"]


def snapshot(opt):
    """what a user reads of a solved optimizer"""
    h = opt.history

    def seq(x):
        return None if x is None else list(flat(x)) if isinstance(x, (list, tuple, np.ndarray)) else x

    def ag(a):
        return None if a is None else (seq(a.solution), a.target.fitness, seq(a.target.objectives), seq(a.target.weights))
    return {
        "class": type(opt).__name__, "name": opt.name, "parameters": {k: v for k, v in opt.get_parameters().items()}, "epoch": opt.epoch, "pop_size": opt.pop_size,
        "mode": opt.mode, "best": ag(opt.g_best), "worst": ag(opt.g_worst), "population": [ag(a) for a in opt.pop],
        "global best": [ag(a) for a in h.list_global_best], "current best": [ag(a) for a in h.list_current_best],
        "global worst": [ag(a) for a in h.list_global_worst], "current worst": [ag(a) for a in h.list_current_worst],
        "best fitness": list(h.list_global_best_fit), "current fitness": list(h.list_current_best_fit), "runtime": list(h.list_epoch_time), "diversity": list(h.list_diversity),
        "exploration": list(h.list_exploration), "exploitation": list(h.list_exploitation), "populations": [[ag(a) for a in p] for p in h.list_population],
        "lower bounds": list(flat(opt.problem.lb)), "upper bounds": list(flat(opt.problem.ub)), "minmax": opt.problem.minmax, "variables": [type(v).__name__ + str(v.name) for v in opt.problem.bounds],
        "weights": seq(opt.problem.obj_weights), "calls": opt.nfe_counter,
    }


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and conj(*[same(a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and conj(*[same(x, y) for x, y in zip(a, b)])
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return close(a, b)
    if isinstance(val_of(a), (int, float, np.number)) and not isinstance(val_of(a), bool):
        return isinstance(val_of(b), (int, float, np.number)) and close(a, b, 0.0)
    return a == b


def differences(a, b):
    """(what, condition that it is the same) for each part of two snapshots"""
    return [(k, same(a[k], b.get(k))) for k in a]


def check_same(k, a, b, text):
    for what, c in differences(a, b):
        k.check(f"{text}: {what}", c, f"{what}: {str(b.get(what))[:150]} instead of {str(a[what])[:150]}")


def solved(k, save=True, epoch=2, pop=2, plain=False, **kw):
    Walk = build()
    m = M()
    n = [0]

    def f(x):
        n[0] += 1
        return 10. - n[0] if plain else k.real(f"fit{n[0]}", -50., 50.)
    C.f = f
    step = k.real("step", 0.1, 5.)
    opt = Walk(epoch=epoch, pop_size=pop, step=step, name="my walk")
    start = [k.arr(k.reals(f"start{i}", 2, -4., 4.)) for i in range(pop)]
    mmx = k.pick("minmax", ("min", "max"))
    opt.solve({"bounds": m.FloatVar(lb=(-4.,) * 2, ub=(4.,) * 2, name="v"), "obj_func": objective, "minmax": mmx, "log_to": None, "save_population": save},
              seed=11, starting_solutions=start, **kw)
    return opt


PATHS = ("model.pkl", "model", "sub.dir/run.pkl", "sub.dir/run", "a.pk", ".pkl", "x", None, "pkl")


def written(p):
    return "model.pkl" if p is None else p if p.endswith(".pkl") else p + ".pkl"


@kernel("C31", "a saved optimizer loads as an equal one", extra=stand_in, budget=60., path_s=25)
def save_load(k):
    from mealpy.utils.io import save_model, load_model
    opt = solved(k, save=k.flag("save"))
    before = snapshot(opt)
    with Scratch():
        save_model(opt, "run")
        check_same(k, before, snapshot(opt), "saving changes the model")
        got = load_model("run")
    check_same(k, before, snapshot(got), "the loaded model differs")
    k.check("the loaded model shares agents with the saved one", got is not opt and got.g_best is not opt.g_best and got.problem is not opt.problem and got.history is not opt.history)
    got.g_best.solution[0] = 77.
    got.g_best.target.objectives[0] = 78.
    got.history.list_global_best_fit.append(1.)
    got.parameters["step"] = 79.
    check_same(k, before, snapshot(opt), "changing the loaded model changes the saved one")


@kernel("C31", "paths", extra=stand_in)
def paths(k):
    from mealpy.utils.io import save_model, load_model
    obj = {"v": k.real("v"), "w": [k.int("w", -5, 5), "text", None], "z": k.vec("z", 2)}
    a, b = k.pick("save", PATHS), k.pick("load", PATHS)
    with Scratch():
        os.mkdir("sub.dir")
        save_model(obj, a)
        files = sorted(os.path.join(d, f)[2:] for d, _, fs in os.walk(".") for f in fs)
        k.check("the file written", files == [written(a)], f"saving to {a!r} wrote {files}")
        if written(a) != written(b):
            k.raises("a model that was not saved is loaded", FileNotFoundError, load_model, b)
            return
        got = load_model(b)
    k.check("kind", isinstance(got, dict) and list(got) == list(obj))
    k.eq("values", [got["v"], got["w"][0]] + list(flat(got["z"])), [obj["v"], obj["w"][0]] + list(flat(obj["z"])))
    k.check("other values", got["w"][1:] == ["text", None])


@kernel("C31", "saving again replaces the file", extra=stand_in)
def save_again(k):
    from mealpy.utils.io import save_model, load_model
    x, y = k.real("x"), k.real("y")
    with Scratch():
        save_model([x, "long" * 50], "m")
        save_model([y], "m.pkl")
        got = load_model("m")
    k.check("kind", isinstance(got, list) and len(got) == 1)
    k.eq("value", got[0], y)


@kernel("C31", "a loaded optimizer solves like the saved one", extra=stand_in, budget=60., path_s=25)
def solve_after(k):
    from mealpy.utils.io import save_model, load_model
    m = M()
    opt = solved(k, epoch=1, plain=True)
    with Scratch():
        save_model(opt, None)
        got = load_model(None)
    memo = {}

    def g(x):
        key = tuple(float(val_of(v)) for v in flat(x))
        if key not in memo:
            memo[key] = k.real(f"again{len(memo)}", -50., 50.)
        return memo[key]
    C.f = g
    out = []
    for o in (opt, got):
        b = o.solve({"bounds": m.FloatVar(lb=(-3.,), ub=(2.,), name="w"), "obj_func": objective, "minmax": "min", "log_to": None}, seed=5)
        out.append((list(flat(b.solution)), b.target.fitness, list(o.history.list_global_best_fit), o.nfe_counter))
    k.check("the loaded model finds another result", same(out[0], out[1]), f"{out[1]} instead of {out[0]}")


@kernel("C31", "problems and agents", extra=stand_in)
def other_objects(k):
    from mealpy.utils.io import save_model, load_model
    from mealpy.utils.agent import Agent
    from mealpy.utils.target import Target
    m = M()
    a = Agent(solution=k.vec("s", 2), target=Target([k.real("o0"), k.real("o1")], [k.real("w0"), k.real("w1")]), velocity=k.vec("v", 2))
    vs = [m.FloatVar(lb=(-3.,), ub=(k.real("ub", 0., 5.),), name="f"), m.IntegerVar(lb=1, ub=6, name="i"), m.StringVar(valid_sets=("x", "yy", "z"), name="s"), m.PermutationVar(valid_set=(3, 1, 2), name="p"),
          m.BinaryVar(n_vars=2, name="b"), m.TransferBoolVar(n_vars=1, name="u")]
    with Scratch():
        save_model((a, vs), "objects")
        b, ws = load_model("objects")
    k.eq("position", b.solution, a.solution)
    k.eq("attribute", b.velocity, a.velocity)
    k.eq("target", [b.target.fitness] + list(flat(b.target.objectives)) + list(flat(b.target.weights)), [a.target.fitness] + list(flat(a.target.objectives)) + list(flat(a.target.weights)))
    for v, w in zip(vs, ws):
        k.check("variable", type(v) is type(w) and v.name == w.name and v.n_vars == w.n_vars)
        k.eq("bounds", [flat(w.lb), flat(w.ub)], [flat(v.lb), flat(v.ub)])
        x = [0.4] * len(flat(v.lb))
        if "Transfer" not in type(v).__name__:
            p, q = v.decode(k.arr(x)), w.decode(k.arr(x))
            k.check("decoding", len(flat(p)) == len(flat(q)) and conj(*[close(s, t) if not isinstance(val_of(s), (str, np.str_)) else str(s) == str(t) for s, t in zip(flat(p), flat(q))]))


# ------------------------------------------------------------------ C32 charts

class Line:
    def __init__(self, ax, x, y, label):
        self.ax, self.x, self.y, self.label = ax, x, y, label


class Axes:
    def __init__(self, fig):
        self.fig, self.title, self.xlabel, self.ylabel, self.legend_shown = fig, None, None, None, False

    def plot(self, *a, **kw):
        if len(a) == 1:
            x, y = list(range(len(a[0]))), a[0]
        else:
            x, y = a[0], a[1]
        x, y = list(flat(x)), list(flat(y))
        if len(x) != len(y):
            raise ValueError(f"x and y must have same first dimension, but have shapes ({len(x)},) and ({len(y)},)")
        self.fig.lines.append(Line(self, x, y, kw.get("label")))
        self.fig.lines[-1].color = kw.get("color", kw.get("c"))
        return [self.fig.lines[-1]]

    def set_title(self, t, *a, **kw):
        self.title = t

    def set_xlabel(self, t, *a, **kw):
        self.xlabel = t

    def set_ylabel(self, t, *a, **kw):
        self.ylabel = t

    def set(self, **kw):
        for n, v in kw.items():
            setattr(self, n, v)

    def legend(self, *a, **kw):
        self.legend_shown = True
        labels = kw.get("labels", a[-1] if a else None)
        if labels is not None:
            for l, t in zip([l for l in self.fig.lines if l.ax is self], labels):
                l.label = str(t)

    @property
    def figure(self):
        return self.fig

    @property
    def lines(self):
        return [l for l in self.fig.lines if l.ax is self]

    def get_figure(self):
        return self.fig

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **kw: None


class Figure:
    def __init__(self, rec):
        self.rec, self.lines, self.axes, self.suptitle_text, self.closed = rec, [], [], None, False

    def new(self):
        self.axes.append(Axes(self))
        return self.axes[-1]

    def add_subplot(self, *a, **kw):
        return self.new()

    def subplots(self, nrows=1, ncols=1, **kw):
        ax = [self.new() for _ in range(nrows * ncols)]
        if len(ax) == 1 and kw.get("squeeze", True):
            return ax[0]
        out = np.empty(len(ax), dtype=object)
        out[:] = ax
        return out if (nrows == 1 or ncols == 1) and kw.get("squeeze", True) else out.reshape(nrows, ncols)

    def suptitle(self, t, *a, **kw):
        self.suptitle_text = t

    def savefig(self, path, *a, **kw):
        path = os.fspath(path)
        d = os.path.dirname(path)
        if d and not os.path.isdir(d):
            raise FileNotFoundError(path)
        self.rec.saved.append((path, self))
        with open(path, "w") as f:
            f.write("chart")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **kw: None


class Plt(types.ModuleType):
    """a recorder with pyplot's interface"""

    def __init__(self):
        super().__init__("matplotlib.pyplot")
        self.saved, self.cur, self.ax = [], None, None

    def figure(self, *a, **kw):
        self.cur, self.ax = Figure(self), None
        return self.cur

    def gcf(self):
        return self.cur or self.figure()

    def gca(self):
        if self.ax is None:
            self.ax = self.gcf().new()
        return self.ax

    def subplots(self, nrows=1, ncols=1, **kw):
        f = self.figure()
        ax = f.subplots(nrows, ncols, **{n: v for n, v in kw.items() if n == "squeeze"})
        self.ax = f.axes[-1]
        return f, ax

    def subplot(self, *a, **kw):
        self.ax = self.gcf().new()
        return self.ax

    def plot(self, *a, **kw):
        return self.gca().plot(*a, **kw)

    def title(self, t, *a, **kw):
        self.gca().title = t

    def xlabel(self, t, *a, **kw):
        self.gca().xlabel = t

    def ylabel(self, t, *a, **kw):
        self.gca().ylabel = t

    def legend(self, *a, **kw):
        self.gca().legend(*a, **kw)

    def suptitle(self, t, *a, **kw):
        self.gcf().suptitle(t)

    def savefig(self, *a, **kw):
        self.gcf().savefig(*a, **kw)

    def close(self, *a, **kw):
        self.cur = self.ax = None

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **kw: None


PLT = [None]


def recorder(src, symbolic):
    from matplotlib import pyplot as plt
    p = PLT[0] = Plt()
    return {"by_value": [(plt, p)] + [(getattr(plt, n), getattr(p, n)) for n in ("figure", "subplots", "plot", "savefig", "close", "title", "xlabel", "ylabel", "legend")]}


def history(k, n_epochs, n_agents=1, n_dims=1, n_obj=1):
    """a history as a run leaves it, with arbitrary values"""
    from mealpy.utils.history import History
    from mealpy.utils.agent import Agent
    from mealpy.utils.target import Target
    h = History(log_to=None, log_file=None)

    def agent(tag):
        return Agent(solution=k.vec(f"{tag}x", n_dims), target=Target(k.reals(f"{tag}f", n_obj)))
    h.list_global_best = [agent(f"g{e}") for e in range(n_epochs)]
    h.list_current_best = [agent(f"c{e}") for e in range(n_epochs)]
    h.list_global_worst = [agent(f"gw{e}") for e in range(n_epochs)]
    h.list_current_worst = [agent(f"cw{e}") for e in range(n_epochs)]
    h.list_global_best_fit = k.reals("gf", n_epochs)
    h.list_current_best_fit = k.reals("cf", n_epochs)
    h.list_epoch_time = k.reals("t", n_epochs, 0., 100.)
    h.list_diversity = k.reals("div", n_epochs, 0., 100.)
    h.list_exploration = k.reals("xpl", n_epochs, 0., 100.)
    h.list_exploitation = k.reals("xpt", n_epochs, 0., 100.)
    h.list_population = [[agent(f"p{e}.{i}") for i in range(n_agents)] for e in range(n_epochs)]
    return h


def freeze(h):
    return {n: (list(v) if isinstance(v, list) else v) for n, v in vars(h).items() if n.startswith("list_")}


FILES = ("chart", "out/chart", "out/deep er/my_chart-1.v2", "a/b/c/d")


def one_figure(k, names):
    """the figure that was saved, once per expected file"""
    s = PLT[0].saved
    got = sorted(os.path.normpath(p) for p, _ in s)
    k.check("files written", got == sorted(names), f"{got} instead of {sorted(names)}")
    k.check("the files exist", all(os.path.isfile(p) for p in names))
    figs = {id(f): f for _, f in s}
    k.check("one figure", len(figs) == 1, f"{len(figs)} figures were saved")
    return next(iter(figs.values())) if figs else None


def lines_are(k, fig, want):
    """want: list of (label or None, xs or None, ys)"""
    if fig is None:
        return
    k.check("number of curves", len(fig.lines) == len(want), f"{len(fig.lines)} curves instead of {len(want)}")
    left = list(fig.lines)
    for j, (label, xs, ys) in enumerate(want):
        if label is not None:
            ls = [l for l in left if l.label == label]
            k.check("curve missing", len(ls) == 1, f"no curve is labelled {label!r}: {[l.label for l in fig.lines]}")
            if not ls:
                continue
            l = ls[0]
        else:
            if j >= len(left):
                continue
            l = left[j]
        k.check("a curve has another length", len(l.y) == len(ys), f"{len(l.y)} points instead of {len(ys)}")
        k.check("a curve does not show the recorded values", close(l.y, ys), f"curve {label or j}: {harness.vals(l.y)} instead of {harness.vals(ys)}")
        if xs is not None:
            k.check("a curve has other abscissae", close(l.x, xs), f"curve {label or j}: {harness.vals(l.x)} instead of {harness.vals(xs)}")


def texts(k, fig, *want):
    if fig is None:
        return
    seen = [t for a in fig.axes for t in (a.title, a.xlabel, a.ylabel) if t is not None] + ([fig.suptitle_text] if fig.suptitle_text is not None else [])
    for w in want:
        k.check("a title or axis label is missing", w in seen, f"{w!r} is not among {seen}")


SIMPLE = {"save_global_best_fitness_chart": "list_global_best_fit", "save_local_best_fitness_chart": "list_current_best_fit", "save_runtime_chart": "list_epoch_time",
          "save_diversity_chart": "list_diversity"}


def add_simple(meth, attr):
    @kernel("C32", meth, extra=recorder)
    def chart(k):
        n = k.pick("epochs", (1, 2, 3))
        h = history(k, n)
        before = freeze(h)
        want = list(getattr(h, attr))
        fn = k.pick("file", FILES)
        kw = {} if not k.flag("title") else {"title": "My title"}
        exts = (".png", ".pdf")
        if meth != "save_diversity_chart":
            if k.flag("legend"):
                kw["legend"] = "my curve"
            exts = k.pick("exts", ((".png", ".pdf"), (".svg",), (".png",)))
            kw.update(exts=exts, y_label="my y")
        with Scratch():
            getattr(h, meth)(filename=fn, verbose=False, **kw)
            fig = one_figure(k, [fn + e for e in exts])
        lines_are(k, fig, [(kw.get("legend"), list(range(n)), want)])
        texts(k, fig, *([kw["title"]] if "title" in kw else []), *(["my y"] if "y_label" in kw else []))
        after = freeze(h)
        k.check("drawing changes the history", conj(*[len(before[a]) == len(after[a]) for a in before]) and close(list(getattr(h, attr)), want))


for _m, _a in SIMPLE.items():
    add_simple(_m, _a)


@kernel("C32", "exploration and exploitation", extra=recorder)
def chart_xpl(k):
    n = k.pick("epochs", (1, 2, 3))
    h = history(k, n)
    a, b = list(h.list_exploration), list(h.list_exploitation)
    fn = k.pick("file", FILES)
    with Scratch():
        h.save_exploration_exploitation_chart(filename=fn, title="T", verbose=False)
        fig = one_figure(k, [fn + e for e in (".png", ".pdf")])
    lines_are(k, fig, [("Exploration %", list(range(n)), a), ("Exploitation %", list(range(n)), b)])
    texts(k, fig, "T")


@kernel("C32", "objectives", extra=recorder)
def chart_obj(k):
    n, m = k.pick("epochs", (1, 2, 3)), k.pick("objectives", (1, 2, 3))
    h = history(k, n, n_obj=m)
    glob = k.flag("global")
    src = h.list_global_best if glob else h.list_current_best
    want = [[flat(a.target.objectives)[j] for a in src] for j in range(m)]
    labels = [f"obj {j}" for j in range(m)] if k.flag("labels") else None
    with Scratch():
        (h.save_global_objectives_chart if glob else h.save_local_objectives_chart)(filename="d/c", y_labels=labels, title="T", verbose=False)
        fig = one_figure(k, ["d/c.png", "d/c.pdf"])
    lines_are(k, fig, [(None, list(range(n)), w) for w in want])
    texts(k, fig, "T", *(labels or []))
    if fig is not None and m > 1:
        k.check("objectives share an axis", len({id(l.ax) for l in fig.lines}) == m)
        if labels:
            k.check("an objective has the label of another one", [l.ax.ylabel for l in fig.lines] == labels)


@kernel("C32", "trajectories", extra=recorder, budget=60., max_paths=3000)
def chart_traj(k):
    n, agents, dims = k.pick("epochs", (2, 3)), 3, 3
    h = history(k, n, n_agents=agents, n_dims=dims)
    ids = k.pick("agents", ((1,), (3,), (2, 1), [3, 1], (1, 2, 3), (2, 2)))
    ds = k.pick("dimensions", ((1,), (3,), [2], (1, 2), (3, 2), (1, 3), (2, 2)))
    pos = [[flat(a.solution) for a in p] for p in h.list_population]
    with Scratch():
        h.save_trajectory_chart(list_agent_idx=ids, selected_dimensions=ds, filename="t/c", title="T", verbose=False)
        fig = one_figure(k, ["t/c.png", "t/c.pdf"])
    d = sorted(set(ds))
    want = []
    for i in sorted(set(ids)):
        s = [[p[i - 1][j - 1] for p in pos] for j in d]
        want.append((f"Agent {i}", s[0] if len(d) == 2 else list(range(n)), s[-1]))
    lines_are(k, fig, want)
    texts(k, fig, "T", *[f"x{j}" for j in d])


@kernel("C32", "trajectories that cannot be drawn", extra=recorder)
def chart_traj_bad(k):
    h = history(k, k.pick("epochs", (0, 1, 2)), n_agents=12, n_dims=3)
    n = len(h.list_population)
    ids = k.pick("agents", ((1,), (12, 1), (13,), (0,), (1, 0), tuple(range(1, 11)), tuple(range(1, 12)), ()))
    ds = k.pick("dimensions", ((1,), (3, 1), (4,), (0, 1), (1, 2, 3), ()))
    ok = n >= 2 and 1 <= len(set(ids)) <= 10 and len(set(ds)) in (1, 2) and all(1 <= i <= 12 for i in ids) and all(1 <= j <= 3 for j in ds)
    with Scratch():
        if ok:
            h.save_trajectory_chart(list_agent_idx=ids, selected_dimensions=ds, filename="c", verbose=False)
            k.check("files written", len(PLT[0].saved) == 2)
        else:
            k.raises("a trajectory that does not exist is drawn", ValueError, h.save_trajectory_chart, list_agent_idx=ids, selected_dimensions=ds, filename="c", verbose=False)
            k.check("a file was written", not PLT[0].saved and not os.listdir("."))


@kernel("C32", "charts of a solved optimizer", extra=recorder, budget=60., path_s=25)
def chart_run(k):
    opt = solved(k, epoch=2)
    h = opt.history
    want = [[a.target.fitness for a in h.list_global_best], [a.target.fitness for a in h.list_current_best]]
    k.check("one record per epoch", len(want[0]) == 2 and len(want[1]) == 2)
    with Scratch():
        h.save_global_best_fitness_chart(filename="g", verbose=False)
        h.save_local_best_fitness_chart(filename="l", verbose=False)
        h.save_trajectory_chart(list_agent_idx=(2,), selected_dimensions=(1,), filename="t", verbose=False)
        figs = {os.path.normpath(p): f for p, f in PLT[0].saved}
        k.check("files written", sorted(figs) == ["g.pdf", "g.png", "l.pdf", "l.png", "t.pdf", "t.png"], f"{sorted(figs)}")
    for n, w in zip("gl", want):
        k.check("one point per epoch", len(figs[n + ".png"].lines) == 1 and len(figs[n + ".png"].lines[0].y) == len(w), f"{n}: {len(figs[n + '.png'].lines[0].y)} points for {len(w)} epochs")
        k.eq("fitness shown", figs[n + ".png"].lines[0].y, w)
    k.eq("trajectory of the second agent", figs["t.png"].lines[0].y, [flat(p[1].solution)[0] for p in h.list_population])
