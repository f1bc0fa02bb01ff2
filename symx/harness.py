"""One run of one optimizer, symbolic or concrete, and what is observed of it through the public API."""
import sys
import hashlib
import traceback
import math
import numpy as np
from . import core, patch, rng, npshim
from .core import is_sym, val_of, node_of, SymReal

FMAX = 1000.0


class Ev:
    __slots__ = ("xs", "fit", "nd", "k", "where")

    def __init__(self, xs, fit, nd, k):
        self.xs, self.fit, self.nd, self.k = xs, fit, nd, k
        self.where = caller()


_KNOWN = None


def known_function(m, nm):
    """does the recorded tree have this function?  (places are named by functions that helper extraction does not rename)"""
    global _KNOWN
    if _KNOWN is None:
        import json
        import os
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "baseline.json")
        try:
            with open(p) as f:
                _KNOWN = {k: set(v) for k, v in json.load(f)["functions"].items()}
        except OSError:
            _KNOWN = {}
    s = _KNOWN.get(m)
    return s is None or nm in s


def caller():
    """module:function of the optimizer code that asked for an evaluation"""
    f = sys._getframe(2)
    core_fn = None
    while f is not None:
        fn = f.f_code.co_filename
        if core.MEALPY_DIR and fn.startswith(core.MEALPY_DIR):
            m = fn[len(core.MEALPY_DIR):-3]
            nm = f.f_code.co_name
            if nm.startswith("<") or not known_function(m, nm):
                pass
            elif m != "optimizer" and not m.startswith("utils"):
                return m.rsplit("/", 1)[-1] + ":" + nm
            else:
                core_fn = nm if nm != "solve" else core_fn
        f = f.f_back
    return "optimizer:" + str(core_fn)


def scal(x):
    """array-like -> flat list of scalars (snapshot)"""
    if isinstance(x, npshim.SymArray):
        return x.view(np.ndarray).ravel().tolist()
    return list(np.asarray(x).ravel().tolist()) if isinstance(x, np.ndarray) else list(x)


def vals(xs):
    return tuple(float(val_of(v)) for v in xs)


def h01(*key):
    h = hashlib.blake2b("|".join(map(str, key)).encode(), digest_size=8).digest()
    return (int.from_bytes(h, "big") + 0.5) / 2.0 ** 64


def fit_base(mode, seed, n, xs=()):
    if mode in ("sphere", "valley"):
        # a smooth function of the point, so that the population gathers
        v = [float(val_of(x)) for x in xs]
        r = sum((x - 0.7) ** 2 for x in v) if mode == "sphere" else sum(abs(x + 1.5) for x in v) - 3.0
        return min(max(r, -FMAX), FMAX) if r == r else 0.0
    u = h01("fit", seed, n)
    if mode == "const":
        return 1.0
    if mode == "zero":
        return 0.0
    if mode == "step":
        return float(int(u * 4))
    if mode == "neg":
        return -20.0 * u - 1.0
    if mode == "desc":         # keeps improving (min)
        return 50.0 - n * 0.25 - 0.1 * u
    if mode == "asc":
        return -50.0 + n * 0.25 + 0.1 * u
    return 20.0 * u - 10.0


class Objective:
    """An arbitrary objective: each distinct point gets its own unconstrained value (a function of the point)."""

    def __init__(self, src, mode="rand", n_obj=1, tag=""):
        self.src, self.mode, self.n_obj, self.tag = src, mode, n_obj, tag
        self.cache = {}
        self.evals = []
        self.calls = 0
        self.max_calls = 40000

    def __call__(self, x):
        self.calls += 1
        if self.calls > self.max_calls:
            raise RuntimeError("evaluation budget of the harness exceeded")
        xs = scal(x)
        key = tuple(np.array(vals(xs)).tobytes() for _ in (0,))
        r = self.cache.get(key)
        if r is None:
            n = len(self.cache)
            r = self._val(n, xs)
            self.cache[key] = r
        nd = len(core.CUR.decisions) if core.CUR is not None else 0
        self.evals.append(Ev(xs, r, nd, self.calls))
        return r

    def peek(self, xs):
        """the value given at this point, None if it was never asked for"""
        return self.cache.get((np.array(vals(xs)).tobytes(),))

    def _val(self, n, xs=()):
        def one(j):
            nm = f"fit{self.tag}.{n}" + (f".{j}" if self.n_obj > 1 else "")
            r = self.src.real(nm, -FMAX, FMAX, lambda: fit_base(self.mode, self.src.seed, n * 7 + j, xs))
            return SymReal(r.n, r.v, True) if is_sym(r) else float(r)
        if self.n_obj == 1:
            return one(0)
        return [one(j) for j in range(self.n_obj)]


class Mirrored(Objective):
    """The n-th evaluation answers an unconstrained v_n >= |sign|, or -v_n in the mirrored run: no two answers of a run are alike."""

    def __init__(self, src, mode, sign):
        super().__init__(src, mode)
        self.sign = sign

    def __call__(self, x):
        self.calls += 1
        if self.calls > self.max_calls:
            raise RuntimeError("evaluation budget of the harness exceeded")
        xs = scal(x)
        n = len(self.evals)
        m = abs(self.sign)      # the smallest answer
        r = self.src.real(f"fit{self.tag}.{n}", m, m * FMAX, lambda: m * (1.0 + 1e-4 * n + min(abs(fit_base(self.mode, self.src.seed, n * 7, xs)), FMAX / 2)))
        r = SymReal(r.n, r.v, True) if is_sym(r) else float(r)
        if self.sign < 0:
            r = -r
        nd = len(core.CUR.decisions) if core.CUR is not None else 0
        self.evals.append(Ev(xs, r, nd, self.calls))
        return r


LB = (-3.0, 1.0, -2.5, 0.0, -10.0)
UB = (5.0, 4.0, -0.5, 1.0, 10.0)


class Case:
    """cls + legal arguments + problem shape"""

    def __init__(self, clsname, kwargs, mode="single", minmax="min", dims=2, fitmode="rand", label="default", seed=7, starting=False,
                 repeat=False, termination=None, save=True, n_workers=None, mix=None, warm=0, mirror=0):
        self.__dict__.update(locals())
        del self.__dict__["self"]

    def key(self):
        return f"{self.clsname}/{self.label}/{self.mode}/{self.minmax}/" + (f"mixed problem {self.mix}" if self.mix else f"d{self.dims}") + (f"/epoch {self.warm + 1}" if self.warm else "")

    def as_dict(self):
        return {k: (v if not isinstance(v, dict) else dict(v)) for k, v in self.__dict__.items()}


def mixed_vars(mix):
    """decision variables of the mixed problems"""
    import mealpy as m
    if mix == "A":
        return [m.FloatVar(lb=(-3.,), ub=(5.,), name="float"), m.IntegerVar(lb=1, ub=6, name="int"), m.PermutationVar(valid_set=(3, 1, 2), name="perm"),
                m.CategoricalVar(valid_sets=(("a", 2, 0.5),), name="cat")]
    if mix == "C":
        return [m.TransferBinaryVar(n_vars=2, name="tbin", tf_func="sstf_02", all_zeros=False), m.TransferBinaryVar(n_vars=1, name="tbin1", tf_func="vstf_01", all_zeros=False),
                m.SequenceVar(valid_sets=((1,), {2, 3}, [4]), name="seq")]
    return [m.BinaryVar(n_vars=2, name="bin"), m.BoolVar(n_vars=1, name="bool"), m.TransferBinaryVar(n_vars=2, name="tbin", tf_func="vstf_02"),
            m.TransferBoolVar(n_vars=1, name="tbool", tf_func="sstf_02"), m.StringVar(valid_sets=("x", "y"), name="str")]


class Outcome:
    def __init__(self):
        self.error = None
        self.tb = None
        self.evals = []
        self.opt = None
        self.best = None
        self.pop = None
        self.prior_evals = 0
        self.starts = self.start_arrays = None
        self.prev = None
        self.prev_failed = False
        self.bounds = self.box = self.prob = self.prob_before = None


_OPTS = None


def get_cls(name):
    global _OPTS
    if _OPTS is None:
        patch.load()
        import mealpy
        _OPTS = mealpy.get_all_optimizers(verbose=False)
    return _OPTS[name]


def all_names():
    get_cls("OriginalPSO")
    return sorted(_OPTS)


def solve_case(case, src, cache=None, switch=None):
    """Build and solve; observations in an Outcome.  Works in both environments.
    With case.warm, the first case.warm epochs run on the default draws and objective values and `switch` is called before the last one."""
    o = Outcome()
    import mealpy
    cls = get_cls(case.clsname)
    obj = Mirrored(src, case.fitmode, case.mirror) if case.mirror else Objective(src, case.fitmode)
    if cache is not None:
        obj.cache = cache       # the same function as in an earlier run
    o.obj = obj
    try:
        opt = cls(**dict(case.kwargs, epoch=case.warm + 1) if case.warm else case.kwargs)
        o.opt, size = opt, getattr(opt, "pop_size", None)
        lb, ub = LB[:case.dims], UB[:case.dims]
        if case.repeat:
            # an earlier, unrelated solve on the same object
            prev = Objective(rng_quiet(src), "rand", tag="prev" + src.tag)
            o.prev = prev
            pb = mealpy.FloatVar(lb=tuple(v - 1 for v in lb), ub=tuple(v + 2 for v in ub))
            prob = {"bounds": pb, "obj_func": prev, "minmax": case.minmax, "log_to": None}
            o.prev_failed = True
            opt.solve(prob, mode=case.mode, seed=case.seed + 1 if case.repeat == 1 else case.seed)
            o.prev_failed = False
        if switch is not None:
            evolve = opt.evolve

            def last_epoch(epoch):
                if epoch == case.warm + 1:
                    switch(opt, obj)
                return evolve(epoch)
            opt.evolve = last_epoch
        bounds = mixed_vars(case.mix) if case.mix else mealpy.FloatVar(lb=lb, ub=ub)
        o.bounds = bounds if isinstance(bounds, list) else [bounds]
        o.box = [(vals(scal(b.lb)), vals(scal(b.ub))) for b in o.bounds]
        prob = {"bounds": bounds, "obj_func": obj, "minmax": case.minmax, "log_to": None, "save_population": case.save}
        kw = {}
        if case.starting:
            o.starts = []
            st = []
            for i in range(size):
                row = []
                for d in range(case.dims):
                    nm = f"start{i}.{d}"
                    if case.starting == "integers":
                        row.append(math.floor(math.ceil(lb[d]) + h01("start", src.seed, i, d) * (math.floor(ub[d]) - math.ceil(lb[d]) + 0.999)))
                        continue
                    row.append(src.real(nm, lb[d], ub[d], lambda: lb[d] + (ub[d] - lb[d]) * h01("start", src.seed, i, d)))
                st.append(row)
            o.starts = st
            if case.starting in ("lists", "tuples"):
                row = list if case.starting == "lists" else tuple
                o.start_arrays = row(row(r) for r in st)
                kw["starting_solutions"] = row(row(r) for r in st) if case.starting == "tuples" else o.start_arrays
            elif case.starting in ("matrix", "integers"):
                o.start_arrays = npshim.asarr(st).copy() if src.symbolic and case.starting == "matrix" else np.array(st)
                kw["starting_solutions"] = o.start_arrays
            else:
                o.start_arrays = [npshim.asarr(r).copy() if src.symbolic else np.array(r) for r in st]
                kw["starting_solutions"] = list(o.start_arrays)
        if case.termination:
            kw["termination"] = dict(case.termination)
        o.prob, o.prob_before = prob, dict(prob)
        o.best = opt.solve(prob, mode=case.mode, seed=case.seed, n_workers=case.n_workers, **kw)
    except Exception as e:
        o.error = e
        tb = traceback.extract_tb(sys.exc_info()[2])
        o.tb = [(f.filename, f.name, f.lineno) for f in tb]
    o.evals = obj.evals
    return o


def rng_quiet(src):
    return src


def mealpy_frames(tb):
    d = core.MEALPY_DIR or "/repo/mealpy/"
    return [(f[len(d):], fn, ln) for f, fn, ln in tb or [] if f.startswith(d)]


def in_harness(o):
    """did the error come from the verification machinery rather than from mealpy?"""
    if o.error is None or not o.tb:
        return False
    return "harness exceeded" in str(o.error)


def agents_of(o):
    """(where, agent) for every agent the caller can reach after solve"""
    out = []
    opt, h = o.opt, o.opt.history
    if o.best is not None:
        out.append(("returned best", o.best))
    if opt.g_best is not None and opt.g_best is not o.best:
        out.append(("g_best", opt.g_best))
    for nm in ("list_global_best", "list_current_best", "list_global_worst", "list_current_worst"):
        for i, a in enumerate(getattr(h, nm)):
            out.append((f"history.{nm}[{i}]", a))
    for e, pop in enumerate(h.list_population):
        for i, a in enumerate(pop):
            out.append((f"history.list_population[{e}][{i}]", a))
    for i, a in enumerate(opt.pop or []):
        out.append((f"pop[{i}]", a))
    return out


# ------------------------------------------------------------------ witnesses

def pools(case, src):
    """simulated pools for the modes that use them"""
    from . import par
    return par.extra(src) if case.mode in ("thread", "process") else None


def replay_concrete(case, assign, seed=1, tag="", src=None):
    src = src or rng.Source(assign, seed, False)
    src.tag = tag
    with patch.concrete(assign, seed, src=src, extra=pools(case, src)):
        return solve_case(case, src), src


def lift(x, memo, depth=0):
    """replace the plain arrays reachable from x by arrays that can hold symbolic values (aliases stay aliases)"""
    if isinstance(x, np.ndarray):
        if isinstance(x, npshim.SymArray):
            return x
        r = memo.get(id(x))
        if r is None:
            s = npshim.asarr(x)
            r = memo[id(x)] = (x, x if s is None else s)
        return r[1]
    if isinstance(x, (str, bytes, int, float, bool, type(None), type, rng.Gen, Objective)) or depth > 12 or id(x) in memo:
        return memo[id(x)][1] if id(x) in memo else x
    if isinstance(x, list):
        memo[id(x)] = (x, x)
        for i, v in enumerate(x):
            x[i] = lift(v, memo, depth + 1)
        return x
    if isinstance(x, tuple):
        return tuple(lift(v, memo, depth + 1) for v in x) if type(x) is tuple else x
    if isinstance(x, dict):
        memo[id(x)] = (x, x)
        for k, v in list(x.items()):
            x[k] = lift(v, memo, depth + 1)
        return x
    if type(x).__module__.startswith("mealpy"):
        memo[id(x)] = (x, x)
        d = getattr(x, "__dict__", None)
        if d:
            for k, v in list(d.items()):
                d[k] = lift(v, memo, depth + 1)
        return x
    return x


def run_warm(case, run, src, extra=None, cache=None):
    """plain epochs first, symbolic last epoch"""
    src.symbolic = False
    env = patch.Env(src, False, extra)
    env.__enter__()
    cur = [env]
    old = core.CUR

    def switch(opt, obj):
        env.__exit__(None, None, None)
        cur[0] = None
        e2 = patch.Env(src, True, extra)
        e2.npr, e2.rm, e2.clock = env.npr, env.rm, env.clock
        src.symbolic = True
        core.set_current(run)
        e2.__enter__()
        cur[0] = e2
        lift(opt, {})
    try:
        with np.errstate(all="ignore"):
            return solve_case(case, src, cache=cache, switch=switch), src
    finally:
        if cur[0] is not None:
            cur[0].__exit__(None, None, None)
        core.set_current(old)


def run_symbolic(case, run, tag="", src=None):
    src = src or rng.Source(run.assign, run.seed, True)
    src.tag = tag
    if case.warm:
        return run_warm(case, run, src, pools(case, src))
    with patch.symbolic(run, src, pools(case, src)):
        return solve_case(case, src), src


# ------------------------------------------------------------------ pairs of runs, compared

def copy_case(case, **kw):
    d = case.as_dict()
    d.update(kw)
    return Case(**d)


def pair(case, one, mk_src, variants):
    """run case, then each variant of it; every run is a fresh Env whose unseeded sources carry another tag"""
    first = None
    last = None
    for i, (kw, extra) in enumerate([({}, None)] + variants):
        src = mk_src()
        src.tag = "" if i == 0 else f"run{i + 1}."
        c = case if i == 0 else copy_case(case, **kw)
        o = one(c, src, extra(src) if extra else None, first.obj.cache if first is not None else None)
        if first is None:
            first, last = o, src
            first.others = []
            first.obj.evals = list(first.obj.evals)
        else:
            first.others.append((kw, o))
            last.values.update(src.values)
    return first, last


def pair_symbolic(case, run, variants):
    def one(c, src, ex, cache):
        if c.warm:
            return run_warm(c, run, src, ex, cache)[0]
        with patch.symbolic(run, src, ex):
            return solve_case(c, src, cache=cache)
    return pair(case, one, lambda: rng.Source(run.assign, run.seed, True), variants)


def pair_concrete(case, assign, seed, variants):
    def one(c, src, ex, cache):
        with patch.concrete(assign, seed, src=src, extra=ex):
            return solve_case(c, src, cache=cache)
    return pair(case, one, lambda: rng.Source(assign, seed, False), variants)
