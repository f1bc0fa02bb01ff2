"""Targets, agents, ranking, selection, operators, termination, history, validation (C16-C24, C28-C30)."""
import itertools
import math
import numpy as np
from symx import harness, npshim, core
from symx.core import is_sym, val_of
from .kernels import conj, disj, neg, imp, close, flat, Ctx, Skip, B

KERNELS = {f"C{i}": {} for i in list(range(16, 25)) + [28, 29, 30]}


def kernel(prop, name, **opts):
    def d(f):
        KERNELS[prop][name] = (f, opts)
        return f
    return d


def M():
    import mealpy
    return mealpy


# ------------------------------------------------------------------ helpers

def target(k, *objs, weights=None):
    from mealpy.utils.target import Target
    return Target(list(objs), weights)


def agent(k, pos, fit, **kw):
    from mealpy.utils.agent import Agent
    return Agent(solution=k.arr(pos), target=target(k, fit), **kw)


def population(k, n, dims=1, name="f", lo=-50., hi=50., tie=True):
    """agents with symbolic fitness and recognisable positions"""
    fits = k.reals(name, n, lo, hi)
    return [agent(k, [float(100 * (i + 1) + j) for j in range(dims)], f) for i, f in enumerate(fits)], fits


def tag(a):
    return int(val_of(flat(a.solution)[0]) // 100) - 1


def optimizer(k, minmax="min", dims=2, pop_size=4, obj=None, lb=-10., ub=10., epoch=3, body=None, seed=5, **prob):
    """an optimizer with a problem, ready to call its methods"""
    m = M()
    cls = type("Mine", (m.Optimizer,), dict(body or {}))
    o = cls()
    o.epoch, o.pop_size = epoch, pop_size
    o.set_parameters(["epoch", "pop_size"])
    o.mode = "single"
    p = {"bounds": m.FloatVar(lb=(lb,) * dims, ub=(ub,) * dims), "minmax": minmax, "obj_func": obj or (lambda x: 0.), "log_to": None, **prob}
    return o, p


def ready(k, *a, **kw):
    o, p = optimizer(k, *a, **kw)
    o.check_problem(p, 5)
    o.check_termination("start", None, None)
    return o


def better_eq(a, b, minmax):
    return a <= b if minmax == "min" else a >= b


def better(a, b, minmax):
    return a < b if minmax == "min" else a > b


def best_of(xs, minmax):
    r = xs[0]
    for x in xs[1:]:
        r = pick_better(r, x, minmax)
    return r


def pick_better(a, b, minmax):
    """value of the better one, without deciding the order"""
    if is_sym(a) or is_sym(b):
        na, nb = core.node_of(a), core.node_of(b)
        f = core.n_min if minmax == "min" else core.n_max
        v = (min if minmax == "min" else max)(val_of(a), val_of(b))
        return core.wrap(f(na, nb), v, True)
    return min(a, b) if minmax == "min" else max(a, b)


def mm(k):
    return k.pick("minmax", ("min", "max"))


# ------------------------------------------------------------------ C16 targets

@kernel("C16", "fitness is the weighted sum")
def weighted(k):
    from mealpy.utils.target import Target
    n = k.pick("n", (1, 2, 3))
    objs, ws = k.reals("o", n), k.reals("w", n, -5., 5.)
    kind = k.pick("container", ("list", "tuple", "array"))
    conv = {"list": list, "tuple": tuple, "array": k.arr}[kind]
    t = Target(conv(objs), conv(ws))
    want = sum(a * b for a, b in zip(objs, ws))
    k.eq("fitness", t.fitness, want)
    k.eq("objectives", flat(t.objectives), objs)
    k.eq("weights", flat(t.weights), ws)
    c = t.copy()
    k.eq("fitness of a copy", c.fitness, want)
    k.eq("objectives of a copy", flat(c.objectives), objs)


@kernel("C16", "no weights, one weight, one number")
def unweighted(k):
    from mealpy.utils.target import Target
    objs = k.reals("o", 3)
    t = Target(objs)
    k.eq("fitness without weights", t.fitness, objs[0] + objs[1] + objs[2])
    k.eq("fitness without weights (copy)", t.copy().fitness, objs[0] + objs[1] + objs[2])
    w = k.real("w", -5., 5.)
    k.eq("fitness with one weight for all", Target(objs, w).fitness, w * (objs[0] + objs[1] + objs[2]))
    k.eq("fitness of a number", Target(objs[0]).fitness, objs[0])
    k.eq("fitness of a weighted number", Target(objs[0], [w]).fitness, w * objs[0])
    k.eq("nested objectives are flattened", Target([[objs[0], objs[1]], [objs[2], 1.0]], [1., 2., 3., 4.]).fitness, objs[0] + 2 * objs[1] + 3 * objs[2] + 4.)


@kernel("C16", "what is not a number is refused")
def refused(k):
    from mealpy.utils.target import Target
    bad = k.pick("bad", (None, "3.0", {"a": 1.}, {1.0, 2.0}))
    k.raises("objectives of a wrong type are accepted", ValueError, Target, bad)
    k.raises("weights of a wrong type are accepted", ValueError, Target, [1., 2.], k.pick("badw", ("1", {"a": 1.}, {1.0})))


@kernel("C16", "the problem's weights decide", budget=40.)
def problem_weights(k):
    m = M()
    n = k.pick("n", (1, 2, 3))
    ws = k.reals("w", n, -5., 5.)
    coef = k.reals("c", n)
    given = k.flag("weights given")
    calls = []

    def obj(x):
        calls.append(1)
        r = [c + harness.scal(x)[0] for c in coef]
        return r[0] if n == 1 else r
    p = m.Problem(bounds=m.FloatVar(lb=(-5.,), ub=(5.,)), obj_func=obj, minmax="min", log_to=None, **({"obj_weights": list(ws)} if given else {}))
    if k.flag("number of objectives asked for"):
        k.check("number of objectives", p.n_objs == n and p.n_objs == n, f"{p.n_objs} instead of {n}")
        k.check("asking evaluates once", len(calls) <= 1)
        calls.clear()
    x = k.vec("x", 1, -5., 5.)
    t = p.get_target(x)
    x0 = harness.scal(x)[0]
    want = sum((w if given else 1.) * (c + x0) for w, c in zip(ws, coef))
    k.eq("fitness of a problem's target", t.fitness, want)
    k.eq("objectives of a problem's target", flat(t.objectives), [c + x0 for c in coef])
    k.check("one call per evaluation", len(calls) == 1)


@kernel("C16", "weights of the wrong number")
def wrong_weights(k):
    m = M()
    n, nw = k.pick("n", (1, 2, 3)), k.pick("weights", (1, 2, 3, 4))
    ws, coef = k.reals("w", nw, -5., 5.), k.reals("c", n)
    p = m.Problem(bounds=m.FloatVar(lb=(-5.,), ub=(5.,)), obj_func=lambda x: list(coef), minmax="min", log_to=None, obj_weights=list(ws))
    if n == nw:
        k.check("number of objectives", p.n_objs == n)
        k.eq("weights", flat(p.obj_weights), ws)
    else:
        k.raises("weights of another number than the objectives are accepted", ValueError, lambda: p.n_objs)


@kernel("C16", "a run optimizes the weighted sum", budget=40.)
def weighted_run(k):
    w = [1., 2.]
    seen = []

    def obj(x):
        o = k.reals(f"obj{len(seen)}.", 2)
        seen.append((harness.scal(x), o))
        return o
    minmax = mm(k)

    def evolve(self, epoch):
        new = [self.generate_agent() for _ in range(self.pop_size)]
        self.pop = self.greedy_selection_population(self.pop, new, self.problem.minmax)
    o, p = optimizer(k, minmax, 1, 2, obj, epoch=1, body={"evolve": evolve}, obj_weights=w)
    best = o.solve(p, seed=3)
    fits = [a + 2. * b for _, (a, b) in seen]
    k.eq("fitness of the result", best.target.fitness, best_of(fits, minmax))
    k.check("objectives of the result", disj(*[conj(close(flat(best.solution), x), close(flat(best.target.objectives), o2)) for x, o2 in seen]))


# ------------------------------------------------------------------ C17 agents

@kernel("C17", "a copy is equal and independent")
def agent_copy(k):
    n = k.pick("n", (1, 3))
    xs, f = k.reals("x", n), k.real("f")
    a = agent(k, xs, f, velocity=k.real("v"), label="z", memory=5)
    a.extra = "later"
    a.memory = k.pick("memory", (5, None, 0, False, 7))
    b = a.copy()
    k.eq("solution of the copy", flat(b.solution), xs)
    k.eq("fitness of the copy", b.target.fitness, f)
    k.eq("objectives of the copy", flat(b.target.objectives), [f])
    k.check("attributes of the copy", conj(close(b.velocity, a.velocity), b.label == "z", b.extra == "later", b.memory is a.memory))
    k.check("the copy is the same object", b is not a and b.solution is not a.solution)
    k.check("identity of the copy", b.id != a.id)
    # changes of one are not seen through the other
    b.solution[0] = 12345.
    k.eq("writing into the copy's position moves the original", flat(a.solution), xs)
    a.solution[n - 1] = -12345.
    k.eq("writing into the original's position moves the copy", flat(b.solution), [12345.] + xs[1:])
    from mealpy.utils.target import Target
    a.update_agent(k.arr([0.] * n), Target(7.))
    k.eq("updating the original changes the copy", b.target.fitness, f)
    c, d = b.copy(), b.copy()
    c.target.set_objectives([f + 3.])
    c.target.set_weights([2.])
    c.target.calculate_fitness([2.])
    b.target.objectives[0] = 99.
    k.eq("changing one agent's target changes its copy", [d.target.fitness] + flat(d.target.objectives), [f, f])
    k.eq("changing a copy's target changes the original", b.target.fitness, f)
    k.eq("changing the original's target changes its copy", flat(c.target.objectives), [f + 3.])
    b.update(label="y", extra="n")
    k.check("updating the copy changes the original", a.label == "z" and a.extra == "later" and b.label == "y")


@kernel("C17", "comparisons follow the direction")
def agent_compare(k):
    minmax = mm(k)
    fa, fb, fc = k.reals("f", 3)
    a, b, c = agent(k, [1.], fa), agent(k, [2.], fb), agent(k, [3.], fc)
    want = better(fa, fb, minmax)
    got = a.is_better_than(b, minmax)
    k.check("is_better_than", iff(got, want))
    k.check("each better than the other", neg(conj(got, b.is_better_than(a, minmax))))
    w = a.get_better_solution(b, minmax)
    k.eq("get_better_solution", w.target.fitness, pick_better(fa, fb, minmax))
    k.check("get_better_solution gives another agent", w is a or w is b)
    w = w.get_better_solution(c, minmax)
    k.eq("best of three", w.target.fitness, pick_better(pick_better(fa, fb, minmax), fc, minmax))


def iff(a, b):
    return conj(imp(a, b), imp(b, a))


@kernel("C17", "equality is by position")
def agent_equal(k):
    xs = k.reals("x", 2, -10., 10.)
    d = k.real("d", 0.01, 5.)
    fa, fb = k.reals("f", 2)
    a, b, c = agent(k, xs, fa), agent(k, xs, fb), agent(k, [xs[0], xs[1] + d], fb)
    k.check("agents at the same position differ", a == b)
    k.check("agents at different positions are equal", neg(a == c))
    k.check("an agent equals something else", not (a == "agent") and not (a == 3.))
    k.check("same position not reported as duplicate", a.sync_if_duplicate(b) is True)
    k.eq("a duplicate takes the target", a.target.fitness, fb)
    k.check("a duplicate takes the position", a.solution is not b.solution and conj(*[p == q for p, q in zip(harness.scal(a.solution), xs)]))
    a2 = agent(k, xs, fa)
    k.check("different position reported as duplicate", a2.sync_if_duplicate(c) is False)
    k.eq("the target of a different agent is taken", a2.target.fitness, fa)


@kernel("C17", "copied populations")
def dup_pop(k):
    m = M()
    pop, fits = population(k, 3)
    new = m.Optimizer.duplicate_pop(pop)
    k.check("size", len(new) == 3)
    k.check("order", [tag(a) for a in new] == [0, 1, 2])
    k.eq("fitness", [a.target.fitness for a in new], fits)
    for a in new:
        a.solution[0] = -1.
    k.check("copies share positions", [tag(a) for a in pop] == [0, 1, 2])


# ------------------------------------------------------------------ C18 ranking

def ranked(fits, minmax):
    return conj(*[better_eq(a, b, minmax) for a, b in zip(fits, fits[1:])])


@kernel("C18", "sorted population", budget=40.)
def sort_pop(k):
    m, minmax = M(), mm(k)
    n = k.pick("n", (1, 2, 4))
    pop, fits = population(k, n)
    before = list(pop)
    new, idx = m.Optimizer.get_sorted_population(pop, minmax)
    k.check("not a permutation of the population", sorted(tag(a) for a in new) == list(range(n)) and all(any(a is b for b in before) for a in new))
    k.check("not best first", ranked([a.target.fitness for a in new], minmax))
    k.check("indices do not name the sorted agents", [int(i) for i in idx] == [tag(a) for a in new])
    k.check("the population itself was reordered", len(pop) == n and all(a is b for a, b in zip(pop, before)))


@kernel("C18", "best and worst agent", budget=40.)
def best_worst(k):
    m, minmax = M(), mm(k)
    n = k.pick("n", (1, 3, 4))
    pop, fits = population(k, n)
    b, i = m.Optimizer.get_best_agent(pop, minmax)
    k.eq("best fitness", b.target.fitness, best_of(fits, minmax))
    k.check("index of the best", int(i) == tag(b))
    w, j = m.Optimizer.get_worst_agent(pop, minmax)
    k.eq("worst fitness", w.target.fitness, best_of(fits, "max" if minmax == "min" else "min"))
    k.check("index of the worst", int(j) == tag(w))
    b.solution[0] = -1.
    w.solution[0] = -1.
    k.check("the returned agent is not a copy", [tag(a) for a in pop] == list(range(n)))


@kernel("C18", "special agents", budget=60.)
def special(k):
    m, minmax = M(), mm(k)
    n = 4
    pop, fits = population(k, n)
    nb, nw = k.pick("numbers", ((1, 1), (3, 2), (2, 4), (None, 1), (2, None)))
    byidx = k.flag("return_index")
    s, best, worst = m.Optimizer.get_special_agents(pop, n_best=nb, n_worst=nw, minmax=minmax, return_index=byidx)
    k.check("sorted population", conj(sorted(tag(a) for a in s) == list(range(n)), ranked([a.target.fitness for a in s], minmax)))
    rev = "max" if minmax == "min" else "min"
    for nm, got, cnt, d in (("best", best, nb, minmax), ("worst", worst, nw, rev)):
        if cnt is None:
            k.check(f"{nm} not asked for", got is None)
            continue
        k.check(f"number of {nm}", len(got) == cnt)
        ids = [int(g) if byidx else tag(g) for g in got]
        k.check(f"{nm} repeated", len(set(ids)) == len(ids))
        gf = [fits[i] for i in ids]
        k.check(f"{nm} in order", ranked(gf, d))
        rest = [fits[i] for i in range(n) if i not in ids]
        k.check(f"{nm} are not the {nm}", conj(*[better_eq(gf[-1], r, d) for r in rest]))
        if not byidx:
            k.check(f"fitness of the {nm}", close([g.target.fitness for g in got], gf))
            for g in got:
                g.solution[0] = -1.
    k.check("the returned agents are not copies", [tag(a) for a in pop] == list(range(n)))


@kernel("C18", "special fitness")
def special_fit(k):
    m, minmax = M(), mm(k)
    pop, fits = population(k, 3)
    tot, b, w = m.Optimizer.get_special_fitness(pop, minmax)
    k.eq("total", tot, fits[0] + fits[1] + fits[2])
    k.eq("best", b, best_of(fits, minmax))
    k.eq("worst", w, best_of(fits, "max" if minmax == "min" else "min"))


@kernel("C18", "better of two")
def better_agent(k):
    m, minmax = M(), mm(k)
    rev = k.flag("reverse")
    pop, (fa, fb) = population(k, 2)
    d = minmax if not rev else ("max" if minmax == "min" else "min")
    r = m.Optimizer.get_better_agent(pop[0], pop[1], minmax, reverse=rev)
    k.eq("fitness", r.target.fitness, pick_better(fa, fb, d))
    k.check("another agent", tag(r) in (0, 1))
    k.eq("fitness of its agent", r.target.fitness, (fa, fb)[tag(r)])
    r.solution[0] = -1.
    k.check("not a copy", [tag(a) for a in pop] == [0, 1])
    for name, got in (("compare_target", m.Optimizer.compare_target(pop[0].target, pop[1].target, minmax)),
                      ("compare_fitness", m.Optimizer.compare_fitness(fa, fb, minmax))):
        k.check(f"{name} refuses a strictly better one", imp(better(fa, fb, minmax), got))
        k.check(f"{name} accepts a strictly worse one", imp(better(fb, fa, minmax), neg(got)))


@kernel("C18", "greedy selection", budget=40.)
def greedy(k):
    m, minmax = M(), mm(k)
    old, fo = population(k, 3, name="old")
    new, fn = population(k, 3, name="new")
    for a in new:
        a.solution[0] = a.solution[0] + 1000.
    r = m.Optimizer.greedy_selection_population(old, new, minmax)
    k.check("size", len(r) == 3)
    for i, a in enumerate(r):
        k.check("agent of another slot", a is old[i] or a is new[i])
        k.eq("not the better of the slot", a.target.fitness, pick_better(fo[i], fn[i], minmax))
    k.raises("populations of different sizes are accepted", ValueError, m.Optimizer.greedy_selection_population, old, new[:2], minmax)


@kernel("C18", "sort and trim", budget=40.)
def trim(k):
    m, minmax = M(), mm(k)
    size = k.pick("size", (1, 2, 3, 4))
    pop, fits = population(k, 4)
    r = m.Optimizer.get_sorted_and_trimmed_population(pop, size, minmax)
    ids = [tag(a) for a in r]
    k.check("size", len(ids) == size and len(set(ids)) == size)
    k.check("order", ranked([fits[i] for i in ids], minmax))
    k.check("a better agent was cut", conj(*[better_eq(fits[i], fits[j], minmax) for i in ids[-1:] for j in range(4) if j not in ids]))


@kernel("C18", "global best update", budget=60.)
def global_best(k):
    minmax = mm(k)
    save = k.flag("save")
    o = ready(k, minmax, 1, 3)
    pop0, f0 = population(k, 3, name="first")
    o.pop = pop0
    o.after_initialization()
    k.eq("initial best", o.g_best.target.fitness, best_of(f0, minmax))
    rev = "max" if minmax == "min" else "min"
    k.eq("initial worst", o.g_worst.target.fitness, best_of(f0, rev))
    pop, f = population(k, 3, name="second")
    s, g = o.update_global_best_agent(pop, save=save)
    h = o.history
    best = best_of(f0 + f, minmax)
    k.check("sorted population", ranked([a.target.fitness for a in s], minmax))
    k.eq("best so far", g.target.fitness, best)
    k.eq("recorded best so far", h.list_global_best[-1].target.fitness, best)
    k.eq("recorded worst so far", h.list_global_worst[-1].target.fitness, best_of(f0 + f, rev))
    k.check("number of records", len(h.list_global_best) == len(h.list_current_best) == len(h.list_global_worst) == len(h.list_current_worst) == (2 if save else 1))
    k.eq("recorded best of the epoch", h.list_current_best[-1].target.fitness, best_of(f if save else f0 + f, minmax))
    k.eq("recorded worst of the epoch", h.list_current_worst[-1].target.fitness, best_of(f if save else f0 + f, rev))
    if save:
        k.eq("earlier record changed", h.list_global_best[0].target.fitness, best_of(f0, minmax))
    for a in pop + pop0 + [g]:
        a.solution[0] = -1.
    if save:
        k.check("records share the population's positions", conj(*[flat(a.solution)[0] > 0 for a in h.list_current_best + h.list_current_worst + h.list_global_worst + h.list_global_best[:1]]))


# ------------------------------------------------------------------ C19 index sampling

@kernel("C19", "exclude one", budget=60., max_paths=4000)
def ex_one(k):
    m = M()
    n = k.pick("n", (2, 3, 5))
    ex = k.int("exclude", 0, n - 1)
    cnt = k.pick("count", tuple(range(1, n)))
    rep = k.flag("replace")
    r = m.Optimizer.sample_indexes_exclude_one(k.gen(), n, ex, cnt, rep)
    xs = [r] if cnt == 1 else flat(r)
    k.check("one index comes as a number", cnt != 1 or np.ndim(r) == 0 and not isinstance(r, (list, tuple)))
    k.check("count", len(xs) == cnt)
    for x in xs:
        k.check("index out of range", conj(x >= 0, x < n))
        k.check("excluded index", neg(x == ex))
    if not rep:
        k.check("repeated index", conj(*[neg(a == b) for a, b in itertools.combinations(xs, 2)]))
    if n == 5 and cnt == 1:
        for i in range(n):
            k.reach(f"index {i} of 5 is never sampled", conj(xs[0] == i, neg(ex == i)))


@kernel("C19", "exclude a list", budget=60., max_paths=4000)
def ex_list(k):
    m = M()
    n = k.pick("n", (3, 5))
    excl = k.pick("exclude", {3: ([0], [2], [0, 1], []), 5: ([0, 4], [2], [1, 2, 3], [3, 1], [4])}[n])
    cnt = k.pick("count", tuple(range(1, n - len(excl) + 1)))
    rep = k.flag("replace")
    r = m.Optimizer.sample_indexes_exclude_list(k.gen(), n, excl, cnt, rep)
    xs = [r] if cnt == 1 else flat(r)
    k.check("one index comes as a number", cnt != 1 or np.ndim(r) == 0 and not isinstance(r, (list, tuple)))
    k.check("count", len(xs) == cnt)
    for x in xs:
        k.check("index out of range", conj(x >= 0, x < n))
        k.check("excluded index", conj(*[neg(x == e) for e in excl]))
    if not rep:
        k.check("repeated index", conj(*[neg(a == b) for a, b in itertools.combinations(xs, 2)]))
    if n == 5 and cnt == 1 and excl == [2]:
        for i in (0, 1, 3, 4):
            k.reach(f"index {i} of 5 without 2 is never sampled", xs[0] == i)


# ------------------------------------------------------------------ C20 selection

@kernel("C20", "roulette wheel", budget=60., max_paths=4000)
def roulette(k):
    minmax = mm(k)
    n = k.pick("n", (1, 2, 3))
    o = ready(k, minmax, 1, n)
    scale = k.pick("range", ((-20., 20.), (0., 20.), (-20., -1.)))
    fits = k.reals("f", n, *scale)
    given = list(fits) if k.flag("list") else k.arr(fits)
    i = o.get_index_roulette_wheel_selection(given)
    k.check("index out of range", conj(i >= 0, i < n))
    k.check("the given fitness values were changed", close(flat(given), fits))
    i = int(i)
    if n > 1:
        # the strictly worst one is never preferred to everything: some better one must be possible too
        for j in range(n):
            k.reach(f"agent {j} of {n} is never selected", i == j)
        others = [fits[j] for j in range(n) if j != i]
        if minmax == "min":
            k.check("the strictly worst is selected", neg(conj(*[fits[i] > x for x in others])))


@kernel("C20", "roulette wheel prefers better fitness", budget=60., max_paths=4000)
def roulette_weights(k):
    minmax = mm(k)
    n = 3
    o = ready(k, minmax, 1, n)
    fits = k.reals("f", n, *k.pick("range", ((-20., 20.), (0., 20.))))
    probs = []
    g = o.generator

    class Watch:
        def __getattr__(self, nm):
            return getattr(g, nm)

        def choice(self, a, *args, **kw):
            if kw.get("p") is not None:
                probs.append(flat(kw["p"]))
            return g.choice(a, *args, **kw)
    o.generator = Watch()
    o.get_index_roulette_wheel_selection(k.arr(fits))
    for p in probs:
        k.check("number of probabilities", len(p) == n)
        for a, b in itertools.permutations(range(n), 2):
            k.check("a better fitness is less likely", imp(better(fits[a], fits[b], minmax), p[a] > p[b]))
        k.check("negative probability", conj(*[x >= 0 for x in p]))


@kernel("C20", "tournament of everyone", budget=60., max_paths=4000)
def tournament_all(k):
    minmax = mm(k)
    n = 3
    o = ready(k, minmax, 1, n)
    pop, fits = population(k, n)
    out = k.pick("output", (1, 2))
    rev = k.flag("reverse")
    r = [int(i) for i in o.get_index_kway_tournament_selection(pop, k_way=n, output=out, reverse=rev)]
    k.check("number of indices", len(r) == out and len(set(r)) == out and all(0 <= i < n for i in r))
    rest = [fits[j] for j in range(n) if j not in r]
    d = minmax if not rev else ("max" if minmax == "min" else "min")
    k.check("not the best of the tournament" if not rev else "not the worst of the tournament", conj(*[better_eq(fits[i], x, d) for i in r for x in rest]))


@kernel("C20", "tournament of some", budget=60., max_paths=4000)
def tournament(k):
    minmax = mm(k)
    n = 4
    o = ready(k, minmax, 1, n)
    pop, fits = population(k, n)
    way = k.pick("k_way", (2, 3, 0.5, 0.1))
    size = {2: 2, 3: 3, 0.5: 2, 0.1: 2}[way]
    out = k.pick("output", (1, 2))
    if way == 0.1:
        size = max(out, int(0.1 * n))
    rev = k.flag("reverse")
    r = [int(i) for i in o.get_index_kway_tournament_selection(pop, k_way=way, output=out, reverse=rev)]
    k.check("number of indices", len(r) == out and len(set(r)) == out and all(0 <= i < n for i in r))
    d = minmax if not rev else ("max" if minmax == "min" else "min")
    # every chosen one beats the size - out agents it met: at least that many agents are not better
    for i in r:
        worse = [better_eq(fits[i], fits[j], d) for j in range(n) if j not in r]
        if size - out > 0:
            k.check("chosen without beating anyone", at_least(worse, size - out))
    if way == 2 and out == 1 and not rev:
        for i in range(n):
            k.reach(f"agent {i} of {n} never wins", r[0] == i)


def at_least(conds, m):
    return disj(*[conj(*c) for c in itertools.combinations(conds, m)])


# ------------------------------------------------------------------ C21 operators

@kernel("C21", "arithmetic crossover")
def crossover(k):
    o = ready(k, "min", 2, 2)
    a, b = k.reals("a", 2), k.reals("b", 2)
    da, db = k.arr(a), k.arr(b)
    c, d = o.crossover_arithmetic(da, db)
    for x, y, p, q in zip(flat(c), flat(d), a, b):
        e = 1e-9 * 100
        k.check("child outside its parents", conj(*[disj(conj(z >= p - e, z <= q + e), conj(z >= q - e, z <= p + e)) for z in (x, y)]))
        k.eq("the children do not complement each other", x + y, p + q, tol=1e-9)
    k.check("a parent was changed", close(flat(da) + flat(db), a + b))


@kernel("C21", "opposition")
def opposition(k):
    n = 2
    o = ready(k, "min", n, 2, lb=-10., ub=4.)
    x, g = k.reals("x", n, -10., 4.), k.reals("g", n, -10., 4.)
    a, b = agent(k, x, 0.), agent(k, g, 0.)
    r = flat(o.generate_opposition_solution(a, b))
    k.check("outside the bounds", len(r) == n and conj(*[conj(v >= -10., v <= 4.) for v in r]))
    k.check("an agent was changed", close(flat(a.solution) + flat(b.solution), x + g))
    r2 = flat(o.generate_opposition_solution(b, b))
    k.check("the opposite of the best itself", conj(*[close(v, -6. - w) for v, w in zip(r2, g)]))


@kernel("C21", "opposition of other variables")
def opposition_mixed(k):
    m = M()
    vs = [m.FloatVar(lb=-10., ub=4.), m.IntegerVar(lb=1, ub=6), m.PermutationVar(valid_set=(5, 6, 7)), m.TransferBinaryVar(n_vars=2)]
    o = ready(k, "min", 7, 2, bounds=vs)
    lb, ub = [float(v) for v in o.problem.lb], [float(v) for v in o.problem.ub]
    x, g = ([k.real(f"{t}{i}", a, b) for i, (a, b) in enumerate(zip(lb, ub))] for t in "xg")
    r = flat(o.generate_opposition_solution(agent(k, x, 0.), agent(k, g, 0.)))
    k.check("outside the bounds", len(r) == 7 and conj(*[conj(v >= a, v <= b) for v, a, b in zip(r, lb, ub)]))
    k.check("the opposite is not a corrected point", conj(*[disj(*[v == c for c in (0., 1., 2.)]) for v in r[2:5]], neg(r[2] == r[3]), neg(r[2] == r[4]), neg(r[3] == r[4]),
                                                          *[disj(v == 0, v == 1) for v in r[5:]]))


@kernel("C21", "levy flight", budget=40.)
def levy(k):
    o = ready(k, "min", 2, 2)
    beta = k.pick("beta", (0.5, 1.0, 1.5, 2.0))
    case = k.pick("case", (0, 1, -1))
    size = k.pick("size", (None, 1, 3, (2, 2)))
    mult = k.real("multiplier", 0.001, 10.)
    o.generator = k.gen(3)
    s = o.get_levy_flight_step(beta=beta, multiplier=mult, size=size, case=case)
    o.generator = k.gen(3)
    t = o.get_levy_flight_step(beta=beta, multiplier=1.0, size=size, case=case)
    shape = () if size in (None, 1) else (3,) if size == 3 else (2, 2)
    k.check("shape", np.shape(s) == shape and np.shape(t) == shape)
    a, b = ([s], [t]) if shape == () else (flat(s), flat(t))
    for x, y in zip(a, b):
        k.check("not finite", bool(np.isfinite(val_of(x))))
        k.check("the multiplier does not scale the step", close(x, y * mult, 1e-6))
    o.generator = k.gen(3)
    u = o.get_levy_flight_step(beta=beta, multiplier=1.0, size=size, case=-1)
    c = [u] if shape == () else flat(u)
    if case == 0:
        k.check("the uniform factor is outside [0, 1]", conj(*[disj(conj(y >= 0, y <= z), conj(y <= 0, y >= z)) for y, z in zip(b, c)]))


@kernel("C21", "groups")
def groups(k):
    o = ready(k, "min", 1, 6)
    pop, fits = population(k, 6)
    n, m_ = k.pick("shape", ((2, 3), (3, 2), (1, 6), (2, 2), (6, 1)))
    r = o.generate_group_population(pop, n, m_)
    k.check("number of groups", len(r) == n and all(len(g) == m_ for g in r))
    k.check("agents of the groups", [tag(a) for g in r for a in g] == list(range(n * m_)))
    k.check("fitness", close([a.target.fitness for g in r for a in g], fits[:n * m_]))
    for g in r:
        for a in g:
            a.solution[0] = -1.
    k.check("not copies", [tag(a) for a in pop] == list(range(6)))


@kernel("C21", "improved mutation and search", budget=60., max_paths=600)
def improved(k):
    minmax = mm(k)
    evals = []

    def obj(x):
        f = k.real(f"obj{len(evals)}", -50., 50.)
        evals.append((harness.scal(x), f))
        return f
    o = ready(k, minmax, 1, 4, obj)
    o.mode = k.pick("mode", ("single", "swarm"))
    fits = k.reals("f", 4, -50., 50.)
    xs = k.reals("x", 4, -10., 10.)
    pop = [agent(k, [x], f) for x, f in zip(xs, fits)]
    if o.mode == "single":
        # without a batch mode the targets are kept by update_target_for_population: documented for swarm mode only
        raise Skip()
    g = pop[0]
    r = o.improved_ms(pop, g)
    k.check("size", len(r) == 4)
    k.check("outside the bounds", conj(*[conj(v >= -10., v <= 10.) for a in r for v in flat(a.solution)]))
    known = [([x], f) for x, f in zip(xs, fits)] + evals
    for a in r:
        k.check("fitness of another point", disj(*[conj(close(flat(a.solution), x), close(a.target.fitness, f)) for x, f in known]))
    k.check("the best was lost", disj(*[better_eq(a.target.fitness, best_of(fits, minmax), minmax) for a in r]))


# ------------------------------------------------------------------ C22 termination

@kernel("C22", "decision", budget=40.)
def should(k):
    m = M()
    from mealpy.utils.termination import Termination
    use = [k.flag(n) for n in ("epoch", "fe", "time", "stop")]
    k.require(any(use))
    me, mf, ms = k.int("max_epoch", 1, 1000), k.int("max_fe", 10, 10000), k.int("max_early_stop", 1, 100)
    mt = k.real("max_time", 0.1, 1000.)
    t = Termination(**{n: v for n, v, u in zip(("max_epoch", "max_fe", "max_time", "max_early_stop"), (me, mf, mt, ms), use) if u})
    e, f, s = k.int("epoch now", 1, 2000), k.int("fe now", 0, 20000), k.int("stop now", 0, 200)
    t0, dt = k.real("start", 0., 1000.), k.real("elapsed", 0., 2000.)
    t.set_start_values(0, 0, t0, 0)
    got = t.should_terminate(e, f, t0 + dt, s)
    hits = [c for c, u in zip((e >= me, f >= mf, dt >= mt, s >= ms), use) if u]
    want = disj(*hits)
    slack = disj(*([conj(dt - mt <= 1e-6, mt - dt <= 1e-6)] if use[2] else [False]))
    k.check("stops too late", disj(slack, imp(want, got)))
    k.check("stops too early", disj(slack, imp(got, want)))
    k.check("no message", (not bool(val_of(got))) or (isinstance(t.message, str) and len(t.message) > 0))


@kernel("C22", "the time limit counts from the latest start")
def restart(k):
    t = M().Termination(max_time=k.real("max_time", 0.1, 1000.))
    mt = t.max_time
    t0, gap, dt = k.real("first start", 0., 1000.), k.real("gap", 0., 1000.), k.real("elapsed", 0., 2000.)
    t.set_start_values(0, 0, t0, 0)
    if k.flag("asked in between"):
        t.should_terminate(1, 0, t0 + gap, 0)
    t.set_start_values(0, 0, t0 + gap, 0)
    got = t.should_terminate(1, 0, t0 + gap + dt, 0)
    slack = conj(dt - mt <= 1e-6, mt - dt <= 1e-6)
    k.check("stops too late", disj(slack, imp(dt >= mt, got)))
    k.check("stops too early", disj(slack, imp(got, dt >= mt)))


@kernel("C22", "refused conditions")
def refused_term(k):
    from mealpy.utils.termination import Termination
    k.raises("no condition is accepted", ValueError, Termination)
    which = k.pick("which", ("max_epoch", "max_fe", "max_early_stop"))
    lo = {"max_epoch": 1, "max_fe": 10, "max_early_stop": 1}[which]
    v = k.int("value", -50, 50)
    try:
        t = Termination(**{which: v})
        k.check("a limit below the minimum is accepted", v >= lo)
        k.check("stored limit", getattr(t, which) == v)
    except ValueError:
        k.check("a legal limit is refused", v < lo)
    t = Termination(termination={which: 20})
    k.check("a dictionary of criteria", getattr(t, which) == 20)


def run_loop(k, minmax, epoch, term, per_epoch, fit, pop_size=2, seed=3, keep=True):
    """solve with a small optimizer that evaluates per_epoch agents each epoch; fitness comes from fit(n)"""
    evals = []

    def obj(x):
        v = fit(len(evals))
        evals.append(v)
        return v

    def evolve(self, e):
        for _ in range(per_epoch):
            a = self.generate_agent()
            if not keep:
                self.pop = [a.copy() for _ in range(self.pop_size)]
            elif self.compare_target(a.target, self.pop[0].target, self.problem.minmax):
                self.pop[0] = a
    o, p = optimizer(k, minmax, 1, pop_size, obj, epoch=epoch, body={"evolve": evolve})
    best = o.solve(p, termination=term, seed=seed)
    return o, best, evals


@kernel("C22", "epochs of a run", budget=40.)
def epochs(k):
    ep = k.int("epoch", 1, 6)
    use = k.flag("termination")
    me = k.int("max_epoch", 1, 8)
    o, best, evals = run_loop(k, "min", ep, {"max_epoch": me} if use else None, 1, lambda n: 10. - n)
    done = len(o.history.list_epoch_time)
    k.check("number of epochs", done == (pick_better(ep, me, "min") if use else ep))
    k.check("number of evaluations", len(evals) == 2 + done)


@kernel("C22", "evaluation budget of a run", budget=40.)
def budget_run(k):
    ep = 6
    mf = k.int("max_fe", 10, 30)
    per = k.pick("per epoch", (1, 3, 5))
    as_obj = k.flag("object")
    term = {"max_fe": mf}
    if as_obj:
        term = M().Termination(max_fe=mf)
    o, best, evals = run_loop(k, "min", ep, term, per, lambda n: 10. - n, pop_size=4)
    done = len(o.history.list_epoch_time)
    # first epoch at whose end the budget is used up
    k.check("stopped before the budget was used up", disj(done == ep, 4 + done * per >= mf))
    k.check("went on after the budget was used up", 4 + (done - 1) * per < mf if done > 1 else True)
    k.check("number of evaluations", len(evals) == 4 + per * done and o.nfe_counter == len(evals))


@kernel("C22", "early stopping of a run", budget=60., max_paths=3000)
def early_stop(k):
    minmax = mm(k)
    ms = k.pick("max_early_stop", (1, 2, 3))
    ep = 4
    steps = [k.pick(f"step{i}", (0., 1.)) for i in range(ep)]
    sgn = -1. if minmax == "min" else 1.
    levels = [0., 0.]
    for s in steps:
        levels.append(levels[-1] + s)
    o, best, evals = run_loop(k, minmax, ep, {"max_early_stop": ms}, 1, lambda n: sgn * levels[n])
    want, rep = ep, 0
    for i, s in enumerate(steps):
        rep = rep + 1 if s == 0 else 0
        if rep >= ms:
            want = i + 1
            break
    k.check("number of epochs", len(o.history.list_epoch_time) == want, f"steps {steps} patience {ms}: {len(o.history.list_epoch_time)} epochs instead of {want}")


@kernel("C22", "early stopping when the best agent is lost", budget=60., max_paths=3000)
def early_stop_lost(k):
    """the population forgets its best: only a new best-so-far is progress"""
    minmax = mm(k)
    ms = k.pick("max_early_stop", (1, 2))
    ep = 3
    sgn = -1. if minmax == "min" else 1.
    gain = [0., 0.] + k.reals("gain", ep, -2., 2.)
    o, best, evals = run_loop(k, minmax, ep, {"max_early_stop": ms}, 1, lambda n: sgn * gain[n], keep=False)
    top, rep, want = 0., 0, ep
    for i, g in enumerate(gain[2:]):
        if g > top:
            k.require(g > top + 1e-6)
            top, rep = g, 0
        else:
            rep += 1
            if rep >= ms:
                want = i + 1
                break
    k.check("number of epochs", len(o.history.list_epoch_time) == want, f"patience {ms}: {len(o.history.list_epoch_time)} epochs instead of {want}")


@kernel("C22", "early stopping tolerance", budget=60.)
def epsilon(k):
    minmax = mm(k)
    eps = k.pick("epsilon", (1e-10, 0.5, 0.))
    step = k.pick("step", ("any", "none", "epsilon"))
    d = k.real("step", 0., 2.) if step == "any" else (0. if step == "none" else eps)
    sgn = -1. if minmax == "min" else 1.
    o, best, evals = run_loop(k, minmax, 2, {"max_early_stop": 1, "epsilon": eps}, 1, lambda n: sgn * (d if n >= 2 else 0. * d))
    done = len(o.history.list_epoch_time)
    if step != "any":       # an improvement larger than epsilon is progress, not one as large
        k.check("went on although the best did not improve by more than epsilon", done == 1, f"step {d}, epsilon {eps}")
        return
    k.check("stopped although the best improved by more than epsilon", disj(done == 2, d <= eps + 1e-7))
    k.check("went on although the best did not improve by more than epsilon", disj(done == 1, d >= eps - 1e-7))


@kernel("C22", "time limit of a run", budget=40.)
def time_run(k):
    m = M()
    mt = k.real("max_time", 0.1, 50.)
    term = {"max_time": mt}
    if k.flag("object used before"):
        term = m.Termination(max_time=mt)
        run_loop(k, "min", k.pick("epochs before", (1, 2)), term, 1, lambda n: 10. - n)
    t0 = len(k.src.ticks)
    o, best, evals = run_loop(k, "min", 4, term, 1, lambda n: 10. - n)
    done = len(o.history.list_epoch_time)
    k.check("no epoch", done >= 1)
    ticks = k.src.ticks[t0:]
    if done < 4:
        k.check("cut short although the time was not used up", ticks[-1] - ticks[0] >= mt - 1e-6, f"{done} epochs in {val_of(ticks[-1] - ticks[0]):.3g} s of {val_of(mt):.3g} s")
    # the epochs alone take no longer than the limit, except the one during which it was reached
    if done > 1:
        k.check("went on after the time was used up", sum(o.history.list_epoch_time[:-1]) < mt + 1e-6)


@kernel("C22", "a termination object serves several runs", budget=40.)
def reuse_term(k):
    t = M().Termination(max_fe=k.int("max_fe", 10, 20))
    a = run_loop(k, "min", 6, t, 3, lambda n: 10. - n, pop_size=4)[0]
    b = run_loop(k, "min", 6, t, 3, lambda n: 10. - n, pop_size=4)[0]
    k.check("the second run has another length", len(a.history.list_epoch_time) == len(b.history.list_epoch_time))


# ------------------------------------------------------------------ C23 history

@kernel("C23", "records of a run", budget=90., max_paths=1500)
def records(k):
    minmax = mm(k)
    save = k.flag("save_population")
    how = k.pick("second epoch", ("new agents", "first moves in place", "second moves in place"))
    evals = []

    def obj(x):
        f = k.real(f"obj{len(evals)}", -50., 50.)
        evals.append(f)
        return f
    pops = []

    def evolve(self, e):
        if e == 1:
            self.pop = [self.generate_agent() for _ in range(2)]
        elif how == "new agents":
            self.pop = [self.generate_agent(), self.pop[0].copy()]
        else:       # an agent that is moved in place
            i = 0 if how == "first moves in place" else 1
            a = self.pop[i]
            a.solution[0] = k.real("moved", -5., 5.)
            a.target = self.get_target(a.solution)
        pops.append([(harness.scal(a.solution), a.target.fitness) for a in self.pop])
    o, p = optimizer(k, minmax, 2, 2, obj, epoch=2, body={"evolve": evolve}, save_population=save)
    best = o.solve(p, seed=3)
    h = o.history
    for nm in ("list_global_best", "list_current_best", "list_global_worst", "list_current_worst", "list_epoch_time", "list_global_best_fit",
               "list_current_best_fit", "list_diversity", "list_exploration", "list_exploitation"):
        k.check(f"length of {nm}", len(getattr(h, nm)) == 2, f"{nm} has {len(getattr(h, nm))} entries for 2 epochs")
    k.check("recorded epochs", h.epoch == 2)
    k.check("recorded populations", len(h.list_population) == (2 if save else 0))
    rev = "max" if minmax == "min" else "min"
    for e in range(2):
        fs = [f for _, f in pops[e]]
        k.eq("current best of the epoch", h.list_current_best[e].target.fitness, best_of(fs, minmax))
        k.eq("current worst of the epoch", h.list_current_worst[e].target.fitness, best_of(fs, rev))
        k.eq("best so far", h.list_global_best[e].target.fitness, best_of(evals[:4 + e], minmax))
        k.eq("worst so far", h.list_global_worst[e].target.fitness, best_of(evals[:4 + e], rev))
        k.eq("list_global_best_fit", h.list_global_best_fit[e], h.list_global_best[e].target.fitness)
        k.eq("list_current_best_fit", h.list_current_best_fit[e], h.list_current_best[e].target.fitness)
        if save:
            k.check("recorded population", close([x for a in h.list_population[e] for x in flat(a.solution)] + [a.target.fitness for a in h.list_population[e]],
                                                 [x for xs, _ in pops[e] for x in xs] + fs))
        k.check("negative runtime", h.list_epoch_time[e] >= 0)
    k.eq("returned best", best.target.fitness, best_of(evals, minmax))


@kernel("C23", "records of a run that is stopped", budget=30., max_paths=300)
def records_stopped(k):
    """as many records as epochs were run, whatever stopped the run"""
    fs = []

    def obj(x):
        fs.append(k.real(f"obj{len(fs)}", 0., 1.) + (len(fs) + 1) * 2.)      # later evaluations are worse
        return fs[-1]

    def evolve(self, e):
        self.pop = self.pop[:1] + [self.generate_agent()]
    stop, want = k.pick("stop", ((None, 5), ({"max_epoch": 2}, 2), ({"max_fe": 13}, 3), ({"max_early_stop": 1}, 1), ({"max_early_stop": 3, "max_epoch": 4}, 3)))
    save = k.flag("save_population")
    o, p = optimizer(k, "min", 1, 10 if stop and "max_fe" in stop else 2, obj, epoch=5, body={"evolve": evolve}, save_population=save)
    o.solve(p, seed=3, termination=stop)
    h = o.history
    k.check("recorded epochs", h.epoch == want, f"{stop}: {h.epoch} instead of {want}")
    for nm in ("list_global_best", "list_current_best", "list_global_worst", "list_current_worst", "list_epoch_time", "list_global_best_fit",
               "list_current_best_fit", "list_diversity", "list_exploration", "list_exploitation") + (("list_population",) if save else ()):
        k.check(f"length of {nm}", len(getattr(h, nm)) == want, f"{stop}: {nm} has {len(getattr(h, nm))} entries for {want} epochs")
    k.check("recorded populations", save or len(h.list_population) == 0)
    k.eq("best so far", h.list_global_best[-1].target.fitness, fs[0])


def absv(x):
    if is_sym(x):
        return abs(x)
    return abs(float(x))


@kernel("C23", "diversity", budget=60.)
def diversity(k):
    n = k.pick("pop", (2, 3))
    xs = [[k.real(f"x{e}.{i}", -10., 10.) for i in range(n)] for e in range(2)]
    cur = [0]

    def evolve(self, e):
        self.pop = [agent(k, [x], 0.) for x in xs[e - 1]]
    o, p = optimizer(k, "min", 1, n, lambda x: 0., epoch=2, body={"evolve": evolve})
    o.solve(p, seed=3)
    h = o.history
    divs = []
    for e in range(2):
        if n == 2:
            med = (xs[e][0] + xs[e][1]) * 0.5
        else:
            med = None
        want = sum(absv(x - med) for x in xs[e]) * (1. / n) if med is not None else (best_of(xs[e], "max") - best_of(xs[e], "min")) * (1. / 3.)
        k.eq("mean distance to the median", h.list_diversity[e], want, tol=1e-7)
        divs.append(h.list_diversity[e])
    for e in range(2):
        k.check("a percentage is no number", all(math.isfinite(float(val_of(v))) for v in (h.list_exploration[e], h.list_exploitation[e])))
        k.eq("exploration and exploitation do not add up", h.list_exploration[e] + h.list_exploitation[e], 100., tol=1e-7)
        k.check("percentage outside [0, 100]", conj(h.list_exploration[e] >= -1e-6, h.list_exploration[e] <= 100 + 1e-6))
        k.check("exploration does not follow diversity", imp(divs[e] > divs[1 - e] + 1e-6, h.list_exploration[e] >= 100 - 1e-3))


@kernel("C23", "repeated bests", budget=40.)
def repeated(k):
    from mealpy.utils.history import History
    n = k.pick("n", (1, 2, 4))
    eps = k.real("eps", 0., 3.)
    fits = k.reals("f", n, -10., 10.)
    h = History(log_to=None, log_file=None)
    h.list_global_best = [agent(k, [0.], f) for f in fits]
    got = h.get_global_repeated_times(eps)
    k.check("out of range", conj(got >= 0, got <= n - 1))
    c = int(val_of(got))
    d = [absv(fits[i] - fits[i + 1]) for i in range(n - 1)]
    for i in range(c):
        k.check("a change counts as repetition", d[n - 2 - i] <= eps + 1e-6)
    if c < n - 1:
        k.check("a repetition does not count", d[n - 2 - c] >= eps - 1e-6)


@kernel("C23", "initial records")
def initial(k):
    from mealpy.utils.history import History
    h = History(log_to=None, log_file=None)
    f, g = k.reals("f", 2)
    a, b = agent(k, [1.], f), agent(k, [2.], g)
    h.store_initial_best_worst(a, b)
    a.solution[0] = 9.
    b.solution[0] = 9.
    k.check("initial best", all(len(x) == 1 for x in (h.list_global_best, h.list_current_best, h.list_global_worst, h.list_current_worst)))
    k.eq("fitness", [h.list_global_best[0].target.fitness, h.list_current_best[0].target.fitness, h.list_global_worst[0].target.fitness, h.list_current_worst[0].target.fitness], [f, f, g, g])
    k.check("not copies", all(float(val_of(flat(x[0].solution)[0])) in (1., 2.) for x in (h.list_global_best, h.list_current_best, h.list_global_worst, h.list_current_worst)))


# ------------------------------------------------------------------ C24 validation

def validator():
    from mealpy.utils.validator import Validator
    return Validator(log_to=None, log_file=None)


INF = math.inf


def bound_of(k):
    kind = k.pick("bound", ("closed", "open", "below", "above", "open below", "open above", "all"))
    lo, hi = k.real("lo", -20., 20.), k.real("hi", -20., 20.)
    if kind in ("closed", "open"):
        k.require(lo <= hi)
    if kind == "closed":
        return [lo, hi], lambda v: conj(v >= lo, v <= hi)
    if kind == "open":
        return (lo, hi), lambda v: conj(v > lo, v < hi)
    if kind == "below":
        return [-INF, hi], lambda v: v <= hi
    if kind == "above":
        return [lo, INF], lambda v: v >= lo
    if kind == "open below":
        return (-INF, hi), lambda v: v < hi
    if kind == "open above":
        return (lo, INF), lambda v: v > lo
    return [-INF, INF], lambda v: True


@kernel("C24", "numbers", budget=60.)
def numbers_(k):
    v = validator()
    bound, ok = bound_of(k)
    which = k.pick("which", ("int", "float", "int_real"))
    x = k.int("value", -30, 30) if which == "int" else k.real("value", -30., 30.)
    f = v.check_float if which == "float" else v.check_int
    try:
        r = f("p", x, bound)
    except ValueError:
        k.check("a legal value is refused", neg(ok(x)))
        return
    k.check("an illegal value is accepted", ok(x))
    if which == "int_real":
        k.check("stored value", conj(r - x < 1, x - r < 1))
    else:
        k.eq("stored value", r, x)
    k.eq("without a bound", f("p", x), r)


@kernel("C24", "not a number")
def not_numbers(k):
    v = validator()
    bad = k.pick("bad", ("5", None, [5], (5,), {"a": 5}))
    for f in (v.check_int, v.check_float):
        k.raises("a value of a wrong type is accepted", ValueError, f, "p", bad, [0, 10])
        k.raises("a value of a wrong type is accepted without a bound", ValueError, f, "p", bad)
    nan = float("nan")
    k.raises("nan is accepted", ValueError, v.check_float, "p", nan, [0., 10.])


@kernel("C24", "strings and booleans")
def strings(k):
    v = validator()
    allowed = ["a", "bc", "A"]
    s = k.pick("s", ("a", "bc", "A", "b", "", "abc", "BC", 1, None, ["a"]))
    try:
        r = v.check_str("p", s, allowed)
        k.check("an illegal string is accepted", isinstance(s, str) and s in allowed and r == s)
    except ValueError:
        k.check("a legal string is refused", not (isinstance(s, str) and s in allowed))
    b = k.pick("b", (True, False, 1, 0, "True", None))
    try:
        r = v.check_bool("p", b)
        k.check("an illegal boolean is accepted", b is True or b is False)
        k.check("stored boolean", r is b)
    except ValueError:
        k.check("a legal boolean is refused", not (b is True or b is False))


@kernel("C24", "tuples", budget=60.)
def tuples(k):
    v = validator()
    ints = k.flag("ints")
    xs = [k.int(f"v{i}", -5, 5) if ints else k.real(f"v{i}", -5., 5.) for i in range(2)]
    kind = k.pick("bounds", ("closed", "open"))
    bounds = [[-2, 3], [0, 4]] if kind == "closed" else [(-2, 3), (0, 4)]
    ok = conj(*[conj(x >= a, x <= b) if kind == "closed" else conj(x > a, x < b) for x, (a, b) in zip(xs, bounds)])
    given = tuple(xs) if k.flag("tuple") else list(xs)
    f = v.check_tuple_int if ints else v.check_tuple_float
    try:
        r = f("p", given, bounds)
    except ValueError:
        k.check("legal values are refused", neg(ok))
        return
    k.check("illegal values are accepted", ok)
    k.eq("stored values", list(r), xs)


@kernel("C24", "tuples of a wrong kind")
def bad_tuples(k):
    v = validator()
    for f in (v.check_tuple_int, v.check_tuple_float):
        k.raises("a tuple of strings is accepted", ValueError, f, "p", ("a", "b"), [[0, 1], [0, 1]])
        k.raises("a single value is accepted", ValueError, f, "p", (1,), [[0, 2]])
        k.raises("a number is accepted", ValueError, f, "p", 3, [[0, 5], [0, 5]])
    k.raises("floats are accepted as integers", ValueError, v.check_tuple_int, "p", (1.5, 2.), [[0, 5], [0, 5]])
    for bad in (5, "ab", None, [], ()):
        k.raises("check_list_tuple accepts a wrong value", ValueError, v.check_list_tuple, "p", bad, "Optimizer")
    k.check("check_list_tuple", v.check_list_tuple("p", (1, 2), "x") == [1, 2] and v.check_list_tuple("p", [3], "x") == [3])
    k.raises("an instance of another class is accepted", ValueError, v.check_is_instance, "p", 3, str)
    k.check("check_is_instance", v.check_is_instance("p", "s", str) == "s")


@kernel("C24", "integer or float", budget=60.)
def int_and_float(k):
    v = validator()
    isint = k.flag("int")
    x = k.int("i", -5, 10) if isint else k.real("f", -5., 10.)
    bi = k.pick("bound for integers", ([2, 6], (-3, 4), None, [-INF, 3], (1, INF)))
    bf = k.pick("bound for floats", ((0., 1.), [-1., 7.], None, (-INF, 2.), [5., INF]))

    def inside(b):
        if b is None:
            return True
        ends = ([x >= b[0], x <= b[1]] if isinstance(b, list) else [x > b[0], x < b[1]])
        return conj(*[c for c, e in zip(ends, b) if math.isfinite(e)])
    ok = inside(bi if isint else bf)
    try:
        r = v.check_is_int_and_float("p", x, bi, bf)
    except ValueError:
        k.check("a legal value is refused", neg(ok))
        return
    k.check("an illegal value is accepted", ok)
    k.eq("stored value", r, x)
    k.check("stored kind", isinstance(val_of(r), int) == isint and isinstance(val_of(r), float) != isint)
    if isint:
        k.raises("a text is accepted", ValueError, v.check_is_int_and_float, "p", k.pick("bad", ("3", None, [3], (0.5,))), bi, bf)


@kernel("C24", "tuples whose bounds do not fit", budget=40.)
def tuples_without_bounds(k):
    """no bounds, and bounds of one entry only"""
    v = validator()
    ints = k.flag("ints")
    n = k.pick("n", (2, 3))
    xs = [k.int(f"v{i}", -5, 5) if ints else k.real(f"v{i}", -5., 5.) for i in range(n)]
    f = v.check_tuple_int if ints else v.check_tuple_float
    given = k.pick("kind", (tuple, list, np.array))(xs)
    k.eq("without bounds", list(flat(f("p", given))), xs)
    bounds = [[-1, 1]] * n if k.flag("same") else [[-INF, 2], (-3, INF), [-5, 5]][:n]
    ok = conj(*[conj(*([x >= b[0]] if b[0] != -INF and type(b) is list else [x > b[0]] if b[0] != -INF else []), *([x <= b[1]] if b[1] != INF and type(b) is list else [x < b[1]] if b[1] != INF else []))
                for x, b in zip(xs, bounds)])
    try:
        f("p", given, bounds)
    except ValueError:
        k.check("legal values are refused", neg(ok))
        return
    k.check("illegal values are accepted", ok)


# ------------------------------------------------------------------ C28 transfer functions

V_SHAPED = ["vstf_01", "vstf_02", "vstf_03", "vstf_04"]
S_SHAPED = ["sstf_01", "sstf_02", "sstf_03", "sstf_04"]


def add_tf(name, vshape):
    def fn():
        from mealpy.utils import transfer
        return getattr(transfer, name)

    @kernel("C28", f"{name} is a probability", timeout=6000, budget=60.)
    def rng_(k):
        x = k.vec("x", 2, -50., 50.)
        r = flat(fn()(x))
        k.check("outside [0, 1]", len(r) == 2 and conj(*[conj(v >= 0, v <= 1 + 1e-12) for v in r]))

    @kernel("C28", f"{name} is monotone", timeout=25000, budget=60.)
    def mono(k):
        a, b = k.reals("x", 2, -8., 8.)
        r = flat(fn()(k.arr([a, b])))
        if vshape:
            k.check("not increasing with the distance from zero", imp(absv(a) <= absv(b), r[0] <= r[1] + 1e-9))
        else:
            k.check("not increasing", imp(a <= b, r[0] <= r[1] + 1e-9))

    @kernel("C28", f"{name} is symmetric", timeout=6000, budget=60.)
    def sym(k):
        a = k.real("x", -8., 8.)
        r = flat(fn()(k.arr([a, -a])))
        if vshape:
            k.check("different for x and -x", close(r[0], r[1], 1e-9))
        else:
            k.check("s(x) + s(-x) is not 1", close(r[0] + r[1], 1., 1e-9))

    @kernel("C28", f"{name} at zero")
    def zero(k):
        r = flat(fn()(k.arr([0.])))
        k.eq("value at zero", r[0], 0. if vshape else 0.5, tol=1e-12)
        far = flat(fn()(k.arr([40. + 0. * k.real("x"), -40.])))
        k.check("not near one far away", conj(far[0] > 0.95, (far[1] > 0.95) if vshape else (far[1] < 0.05)))


for _n in V_SHAPED:
    add_tf(_n, True)
for _n in S_SHAPED:
    add_tf(_n, False)


# ------------------------------------------------------------------ C29 chaotic maps and fuzzy weights

CHAOS = {"bernoulli_map": (0., 1., 0., 1.), "logistic_map": (0., 1., 0., 1.), "chebyshev_map": (-1., 1., -1., 1.), "circle_map": (0., 1., 0., 1.), "cubic_map": (0., 1., 0., 1.),
         "icmic_map": (-1., 1., 0., 1.), "piecewise_map": (0., 1., 0., 1.), "singer_map": (0., 1., -0.004, 1.08), "sinusoidal_map": (0., 1., 0., 1.), "tent_map": (0., 1., 0., 1.)}


def add_chaos(name, box):
    @kernel("C29", f"{name} stays in its interval", timeout=25000, budget=60.)
    def stays(k):
        from mealpy.utils.chaotic import ChaoticMap
        x = k.real("x", box[0], box[1])
        y = getattr(ChaoticMap, name)(x)
        e = 1e-9
        k.check("leaves its interval", conj(y >= box[2] - e, y <= box[3] + e))


for _n, _b in CHAOS.items():
    add_chaos(_n, _b)


@kernel("C29", "triangular membership", budget=40.)
def triangle(k):
    from mealpy.utils.fuzzy import FuzzySystem
    f = FuzzySystem()
    a, b, c = k.pick("triangle", ((0., 0.5, 1.), (0., 0., 0.5), (0.5, 1., 1.), (-2., 1., 7.)))
    x = k.real("x", -3., 8.)
    v = f.triangular_membership(x, a, b, c)
    k.check("outside [0, 1]", conj(v >= 0, v <= 1 + 1e-9))
    k.check("not zero outside the triangle", imp(disj(x < a, x > c), close(v, 0.)))
    if a < b < c:
        k.check("not one at the peak", imp(x == b, close(v, 1.)))
        k.check("wrong slope", conj(imp(conj(x > a, x <= b), close(v * (b - a), x - a)), imp(conj(x >= b, x < c), close(v * (c - b), c - x))))


@kernel("C29", "fuzzy weights", budget=60., timeout=6000)
def fuzzy(k):
    from mealpy.utils.fuzzy import FuzzySystem
    f = FuzzySystem(k.pick("type", ("increase", "decrease")))
    n = k.int("max", 1, 1000)
    i = k.int("iteration", 0, 1000)
    k.require(i <= n)
    w = f.get_fuzzy_weights(i, n)
    k.check("number of weights", len(w) == 3)
    for nm, v in zip(("alpha", "beta", "delta"), w):
        k.check(f"{nm} weight outside [25, 75]", conj(v >= 25 - 1e-6, v <= 75 + 1e-6))


# ------------------------------------------------------------------ C30 parameters

@kernel("C30", "set_parameters")
def set_params(k):
    m = M()
    o = m.PSO.OriginalPSO(epoch=10, pop_size=10)
    before = dict(o.get_parameters())
    names = ["epoch", "pop_size", "c1", "c2", "w"]
    sub = k.pick("subset", ((), ("c1",), ("epoch", "w"), ("c2", "c1", "pop_size")))
    unknown = k.flag("unknown name")
    vals = {n: (k.int("v_" + n, 1, 500) if n in ("epoch", "pop_size") else k.real("v_" + n, 0.1, 2.)) for n in sub}
    if unknown:
        k.raises("an unknown parameter is accepted", ValueError, o.set_parameters, {**vals, "zzz": 1})
        k.check("a refused call changed parameters", conj(*[conj(close(o.parameters[n], before[n]), close(getattr(o, n), before[n])) for n in names]))
        k.check("an unknown parameter was stored", "zzz" not in o.parameters and not hasattr(o, "zzz"))
        return
    o.set_parameters(vals)
    for n in names:
        want = vals.get(n, before[n])
        k.eq("attribute", getattr(o, n), want)
        k.eq("get_parameters", o.get_parameters()[n], want)
    k.check("names", list(o.get_parameters()) == names)
    # parameters that the run itself changed are set again
    o.c1, o.epoch = k.real("drifted c1", 2.5, 3.), k.int("drifted epoch", 501, 600)
    back = {n: o.get_parameters()[n] for n in k.pick("set again", (("c1",), ("epoch",), ("c1", "epoch")))}
    o.set_parameters(back)
    for n, v in back.items():
        k.eq("attribute after it was changed by the run", getattr(o, n), v)
    s = str(o)
    k.check("text", s.startswith("OriginalPSO(") and all(f"{n}=" in s for n in names))


@kernel("C30", "declared parameters are the attributes")
def declared(k):
    m = M()
    e, p = k.int("epoch", 1, 1000), k.int("pop", 5, 500)
    c1 = k.real("c1", 0.5, 4.)
    o = m.PSO.OriginalPSO(epoch=e, pop_size=p, c1=c1)
    q = o.get_parameters()
    k.eq("values", [q["epoch"], q["pop_size"], q["c1"]], [e, p, c1])
    k.check("name", o.get_name() == "OriginalPSO" and m.PSO.OriginalPSO(name="mine").get_name() == "mine")
