"""What the tuner writes to files (C37)."""
import itertools
import json
import os
import pickle
import sys
import types
import numpy as np
from symx import harness, pdshim, par
from symx.core import is_sym, val_of
from .kernels import conj, close, flat
from .k_core import M, optimizer, mm
from .k_io import Scratch as Folder, Plt, PLT, FILES as NAMES
from . import k_io

KERNELS = {"C37": {}}


def kernel(prop, name, **opts):
    def d(f):
        KERNELS[prop][name] = (f, opts)
        return f
    return d


def draw(df, x=None, y=None, kind="line", title=None, color=None, ax=None, **kw):
    """DataFrame.plot: one line per column, over the index"""
    p = PLT[0]
    if ax is None:
        ax = p.figure().new()
        p.ax = ax
    if kind != "line":
        raise NotImplementedError(kind)
    for j, c in enumerate(list(df.columns)):
        ax.plot(list(df.index), [v for v in df[c].values.tolist()], label=str(c), color=None if color is None else color[j % len(color)])
    if title is not None:
        ax.set_title(title)
    return ax


def environment(src, symbolic):
    import pandas
    ex = k_io.recorder(src, symbolic)
    ex["by_value"] = ex["by_value"] + list(par.extra(src)["by_value"])
    if symbolic:
        ex["by_value"] += pdshim.extra(src)["by_value"]
        pdshim.PLOT[0] = draw
    else:
        if "symx_drawing" not in sys.modules:
            m = sys.modules["symx_drawing"] = types.ModuleType("symx_drawing")
            m.plot = lambda data, x=None, y=None, kind="line", **kw: draw(data, x, y, kind, **kw)
        pandas.set_option("plotting.backend", "symx_drawing")
    return ex


class Scratch(Folder):
    def __enter__(self):
        pdshim.FILES.clear()
        pdshim.KINDS.clear()
        return Folder.__enter__(self)


def read(path, kind):
    """the columns of a written table, by name"""
    if path in pdshim.FILES:
        if pdshim.KINDS[path] != kind:
            return {"kind": [pdshim.KINDS[path]]}
        return {str(c): list(v) for c, v in pdshim.FILES[path].items()}
    import pandas
    df = pandas.read_csv(path) if kind == "csv" else pandas.DataFrame(json.load(open(path))) if kind == "json" else pandas.read_pickle(path)
    return {str(c): df[c].tolist() for c in df.columns}


def same_cell(a, b):
    a, b = [x.item() if isinstance(x, np.generic) else x for x in (a, b)]
    if isinstance(a, float) and a != a or a is None:
        return isinstance(b, float) and b != b or b is None
    if isinstance(val_of(a), (int, float)) and not isinstance(a, bool):
        return isinstance(val_of(b), (int, float)) and close(a, b, 1e-6)
    return str(a) == str(b)


def same_table(k, key, got, want):
    """want: dict of columns"""
    want = {str(c): v for c, v in want.items()}
    k.check(f"{key}: columns", list(got) == list(want), f"{list(got)} instead of {list(want)}")
    for c in want:
        k.check(f"{key}: rows", len(got.get(c, ())) == len(want[c]), f"{c}: {len(got.get(c, ()))} instead of {len(want[c])}")
        k.check(f"{key}: values", conj(*[same_cell(a, b) for a, b in zip(want[c], got.get(c, ()))]), f"column {c}: {[val_of(x) for x in got.get(c, ())]} instead of {[val_of(x) for x in want[c]]}")


GRIDS = ({"c": [1, 2]}, {"c": [4]}, {"c": [1, 2, 3]}, {"c": [1, 2], "d": [0.5, 2.5]}, {"d": ["x"], "c": [2, 1]}, {"c": [1, 2], "d": [7], "e": [True, False]})


def searched(k, grid, trials, epochs=2, minmax="min", bounds_on_step=True):
    """a tuner after execute(), and the convergence curve of every run in order"""
    runs = []

    def start(self):
        runs.append({"at": {n: getattr(self, n) for n in grid}, "epoch": 0, "first": k.real(f"first{len(runs)}", 12. * len(runs) ** 2, 12. * len(runs) ** 2 + 1.), "step": k.real(f"step{len(runs)}", 0.5, 1.5)})

    def evolve(self, e):
        runs[-1]["epoch"] += 1
        self.pop = [self.generate_agent() for _ in range(self.pop_size)]

    def generate_agent(self, solution=None):
        return M().Optimizer.generate_agent(self, np.array([1., 2.]) if solution is None else solution)

    def value(r):
        d = r["step"] * float(r["epoch"])
        return r["first"] - d if minmax == "min" else r["first"] + d
    o, p = optimizer(k, minmax, 2, 2, lambda x: value(runs[-1]), epoch=epochs, body={"evolve": evolve, "generate_agent": generate_agent, "initialize_variables": start})
    o.c = o.d = o.e = 0
    o.set_parameters(["epoch", "pop_size", "c", "d", "e"])
    p["name"] = "P"
    t = M().Tuner(o, grid)
    t.execute(problem=p, n_trials=trials, verbose=False)
    curves = []
    for r in runs:
        sign = -1. if minmax == "min" else 1.
        curves.append([r["first"] + sign * r["step"] * float(e) for e in range(1, epochs + 1)])
    ps = [r["at"] for r in runs[::trials]]
    k.check("one run per point and trial", len(runs) == len(ps) * trials == trials * int(np.prod([len(v) for v in grid.values()])) and all(r["at"] == ps[i // trials] for i, r in enumerate(runs)))
    return t, curves, ps


def table(df):
    return {c: df[c].values.tolist() for c in list(df.columns)}


@kernel("C37", "the table of results", extra=environment, budget=40.)
def export_table(k):
    minmax = mm(k)
    grid = k.pick("grid", GRIDS[:4:3])
    t, curves, ps = searched(k, grid, 2, 1, minmax)
    before = table(t.df_fit)
    folder = k.pick("folder", (None, "out", "out/deep er/x"))
    kind = k.pick("kind", ("csv", "json", "dataframe"))
    name = k.pick("name", (None, "fit", "my_results"))
    if name is None and kind != "csv":
        name = "tuning"
    kw = {} if name is None else {"file_name": f"{name}.{kind}"}
    if folder is not None:
        kw["save_path"] = folder
    with Scratch():
        t.export_results(**kw)
        where = f"{folder or 'history/' + t.algorithm.get_name()}/{name or 'tuning_best_fit'}.{'pkl' if kind == 'dataframe' else kind}"
        found = sorted(os.path.join(d, f) for d, _, fs in os.walk(".") for f in fs)
        k.check("files written", found == [os.path.normpath(where) if where.startswith("/") else "./" + os.path.normpath(where)], f"{found}")
        got = read(where, "pickle" if kind == "dataframe" else kind)
        same_table(k, "table of results", got, before)
        k.check("the file name is no text", True)
        k.raises("a file name that is no text", ValueError, t.export_results, file_name=k.pick("bad", (None, 5)))
    for i in range(len(ps)):
        for j in range(2):
            k.eq("a trial's result is not in the file", got[f"trial_{j + 1}"][i], curves[2 * i + j][-1], tol=1e-6)
    k.check("the tuner's table changed", conj(*[conj(*[same_cell(a, b) for a, b in zip(before[c], list(t.df_fit[c].values))]) for c in before]))


@kernel("C37", "the convergence table", extra=environment, budget=40.)
def export_losses(k):
    grid = k.pick("grid", GRIDS)
    trials = k.pick("trials", (1, 2))
    epochs = k.pick("epochs", (1, 3))
    t, curves, ps = searched(k, grid, trials, epochs)
    kind = k.pick("kind", ("csv", "json", "dataframe"))
    folder = k.pick("folder", (None, "a/b"))
    with Scratch():
        t.export_figures(save_path=folder, file_name=f"losses.{kind}")
        got = read(f"{folder or 'history/' + t.algorithm.get_name()}/losses.{'pkl' if kind == 'dataframe' else kind}", "pickle" if kind == "dataframe" else kind)
    want = {}
    for i, pt in enumerate(ps):
        for j in range(trials):
            for c, v in {**pt, "trial": j, **{e + 1: curves[trials * i + j][e] for e in range(epochs)}}.items():
                want.setdefault(str(c), []).append(v)
    same_table(k, "convergence table", got, {c: want[c] for c in list(ps[0]) + ["trial"] + [str(e + 1) for e in range(epochs)]})


@kernel("C37", "convergence figures", extra=environment, budget=60., max_paths=3000)
def export_figures(k):
    grid = k.pick("grid", GRIDS)
    trials = k.pick("trials", (1, 2))
    minmax = mm(k)
    t, curves, ps = searched(k, grid, trials, 2, minmax)
    exts = k.pick("endings", ((".png", ".pdf"), (".svg",), ()))
    texts = k.pick("texts", ((None, None), ("generation", "loss")))
    sizes = {len(v) for v in grid.values() if len(v) > 1}
    color = ["red", "#00ff00", "b"][:sizes.pop()] if len(sizes) == 1 and k.flag("colours") else None
    want = []
    for trial in range(trials):
        for a in grid:
            others = [b for b in grid if b != a]
            for rest in itertools.product(*[grid[b] for b in others]):
                chosen = [(i, pt) for i, pt in enumerate(ps) if all(pt[b] == v for b, v in zip(others, rest))]
                if len(chosen) > 1:
                    want.append((trial, a, dict(zip(others, rest)), [(f"{a} = {pt[a]}", curves[trials * i + trial]) for i, pt in chosen]))
    losses, fits, best = table(t.df_loss), table(t.df_fit), dict(t.best_params)
    with Scratch():
        t.export_figures(save_path="figs", x_label=texts[0], y_label=texts[1], color=color, exts=exts)
        saved = {}
        for path, fig in PLT[0].saved:
            path = os.path.normpath(path)
            k.check("a chart overwrites another one", path not in saved, path)
            saved[path] = fig
            k.check("a chart that does not exist", os.path.isfile(path))
    k.check("number of charts", len(saved) == len(want) * len(exts), f"{len(saved)} files instead of {len(want)} charts in {len(exts)} formats")
    for e in exts:
        left = {p: f for p, f in saved.items() if p.endswith(e)}
        for trial, a, rest, lines in want:
            # the chart of this trial whose lines carry the values of this parameter, saved under a name that tells the others
            fit = [p for p, f in left.items() if p.startswith(os.path.join("figs", f"trial{trial}") + os.sep) and [l.label for l in f.lines] == [n for n, _ in lines]
                   and all(f"{b}_{v}" in os.path.basename(p) for b, v in rest.items())]
            k.check("a chart is missing", len(fit) == 1, f"trial {trial}, {a}, with {rest}: {len(fit)} such charts")
            if len(fit) != 1:
                continue
            fig = left.pop(fit[0])
            k.check("number of points", all(len(l.y) == 2 for l in fig.lines))
            for l, (n, ys) in zip(fig.lines, lines):
                k.check("a curve is not the convergence of its setting", close(l.y, ys), f"trial {trial}, {n} with {rest}: {harness.vals(l.y)} instead of {harness.vals(ys)}")
                k.check("epochs on the axis", [str(x) for x in l.x] == ["1", "2"], f"{l.x}")
            if color is not None:
                k.check("colours", [l.color for l in fig.lines] == color)
            ax = fig.axes[0]
            k.check("texts", a in str(ax.title) and ax.xlabel == (texts[0] or "Epoch") and ax.ylabel == (texts[1] or "Global best fitness value") and ax.legend_shown, f"{ax.title}, {ax.xlabel}, {ax.ylabel}")
    k.check("the tuner's tables changed", conj(*[conj(*[same_cell(x, y) for x, y in zip(b[c], list(df[c].values))]) for b, df in ((losses, t.df_loss), (fits, t.df_fit)) for c in b]) if list(t.df_loss.columns) == list(losses) and list(t.df_fit.columns) == list(fits) else False)
    k.check("the best parameters changed", t.best_params == best)


@kernel("C37", "what cannot be drawn", extra=environment)
def export_bad(k):
    t, curves, ps = searched(k, {"c": [1, 2]}, 1, 1)
    with Scratch():
        n = k.pick("colours", (0, 1, 3))
        k.raises("the wrong number of colours", ValueError, t.export_figures, save_path="f", color=["r", "g", "b"][:n])
        k.raises("a file name that is no text", ValueError, t.export_figures, save_path="f", file_name=k.pick("bad", (None, 5, ("a",))))


@kernel("C37", "exporting again", extra=environment)
def export_again(k):
    grid = k.pick("grid", (GRIDS[0], GRIDS[3]))
    kind = k.pick("kind", ("csv", "json", "dataframe"))
    ending = "pkl" if kind == "dataframe" else kind
    t, curves, ps = searched(k, grid, 1, 1)
    u, _, _ = searched(k, GRIDS[2], 2, 1)
    with Scratch():
        if k.flag("folder exists"):
            os.makedirs("f")
        for x in (t, t, u):
            x.export_results(save_path="f", file_name=f"a.{kind}")
            x.export_figures(save_path="f", file_name=f"b.{kind}", exts=(".png",))
            for name, df in (("a", x.df_fit), ("b", x.df_loss)):
                same_table(k, "table exported again", read(f"f/{name}.{ending}", "pickle" if kind == "dataframe" else kind), table(df))
