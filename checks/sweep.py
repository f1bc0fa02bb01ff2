"""Symbolic sweeps: run every optimizer under the engine, follow branches, decide assertions on each path.

A judge defines what is asserted:
  cases(cls)                 the configurations explored
  concrete(o, case)          [(key, message)] on an outcome whose values are plain (or shadows)
  goals(o, case, run)        (key, goal node, number of decisions that precede it, message): to be proved on the path
"""
import hashlib
import random
import sys
import time
import traceback
from symx import core, configs, explore, harness, patch, rng, solve
from symx.core import Run, PathLimit, n_not, val_of
from symx.explore import Path
from . import common

PATH_S = 25.0


def execute(case, assign, seed, opts=None, runner=None):
    run = Run(assign, seed, opts or {"max_decisions": 60000})
    o = None
    try:
        with common.alarm_inner(PATH_S):
            o, _ = (runner or harness.run_symbolic)(case, run)
    except PathLimit:
        return Path(run, None, "limit")
    except common.PathTimeout:
        return Path(run, None, "timeout")
    p = Path(run, o, None)
    if harness.in_harness(o):
        p.error = "limit"
    return p


def replay(case, assign, seed, runner=None):
    try:
        with common.alarm_inner(PATH_S):
            o, src = (runner or harness.replay_concrete)(case, assign, seed)
            return o, src
    except common.PathTimeout:
        return None, None


def is_draw(name):
    return not name.startswith(("fit", "start", "in.")) and name.rsplit(".", 1)[-1] in ("u", "z", "c", "e")


def jitter(assign, k):
    r = random.Random(k)
    out = dict(assign)
    for n, v in assign.items():
        if is_draw(n) and isinstance(v, float):
            out[n] = v + r.uniform(-1, 1) * 1e-7 * max(abs(v), 1e-3)
    return out


class ClassResult:
    def __init__(self, name):
        self.name = name
        self.viol = {}          # key -> (msg, witness)
        self.undecided = {}
        self.nonrobust = {}
        self.paths = self.decisions = self.proved = self.replays = self.errors = self.limits = 0
        self.sites = 0
        self.functions = set()
        self.stats = solve.Stats()
        self.concretizations = 0
        self.flips = self.flips_unsat = self.flips_unknown = self.diverged = 0
        self.sample = None
        self.trivial = 0
        self.errs = {}


def confirm(judge, case, assign, seed, res, keys=None):
    """rerun on the unmodified code with the scripted draws; returns {key: msg} that really fail"""
    o, src = replay(case, assign, seed, judge.replayer)
    if o is None:
        return {}
    res.replays += 1
    found = dict(judge.concrete(o, case))
    if not found:
        return {}
    ok = {}
    tries = []
    for k in range(4):
        o2, _ = replay(case, jitter(dict(assign if getattr(case, "warm", 0) else src.values), k), seed, judge.replayer)
        res.replays += 1
        if o2 is not None:
            tries.append(dict(judge.concrete(o2, case)))
    for key, msg in found.items():
        if any(key in t for t in tries):
            ok[key] = (msg, {"case": case.as_dict(), "assign": src.values, "seed": seed})
        else:
            res.nonrobust[key] = msg
    return ok


def judge_path(judge, case, path, res, budget):
    run, o = path.run, path.result
    res.paths += 1
    if not path.flipped:
        # the path on the unmodified code: the model's view is never the only one
        for k, v in confirm(judge, case, run.values, run.seed, res).items():
            res.viol.setdefault(k, v)
    res.decisions += len(run.decisions)
    res.concretizations += sum(run.concretized.values())
    for d in run.decisions:
        res.functions.add((d[0][0], d[0][1]))
    if o is None or path.error == "limit":
        res.limits += 1
        return
    if o.error is not None:
        res.errors += 1
        k = f"{type(o.error).__name__}:{str(o.error)[:80]}"
        res.errs[k] = res.errs.get(k, 0) + 1
    for key, msg in judge.concrete(o, case):
        if key in res.viol or res.undecided.get(key, 0) > 6:
            continue
        ok = confirm(judge, case, run.values, run.seed, res)
        for k, v in ok.items():
            res.viol.setdefault(k, v)
        if key not in ok:
            res.undecided[key] = res.undecided.get(key, 0) + 1
    pcs = None
    for key, goal, upto, msg in judge.goals(o, case, run):
        if goal.op == "bconst":
            if goal.val:
                res.trivial += 1
                res.proved += 1
            continue        # a false constant is a concrete failure, handled above
        if key in res.viol:
            continue
        if time.time() > budget:
            res.undecided["(time)"] = res.undecided.get("(time)", 0) + 1
            break
        pc = path.pc(upto)
        v, m = solve.prove(pc, goal, res.stats, judge.timeout)
        if v == "proved":
            res.proved += 1
            continue
        ok = {}
        if m is not None and res.undecided.get(key, 0) <= 3:
            a = dict(run.values)
            a.update({k: x for k, x in m.items() if x is not None})
            ok = confirm(judge, case, a, run.seed, res)
            for k, w in ok.items():
                res.viol.setdefault(k, w)
        if not ok:
            res.undecided[key] = res.undecided.get(key, 0) + 1


def explore_class(task):
    """task = (judge, class name, budget seconds, max flips, seeds, seconds for longer runs)"""
    judge, name, budget_s, max_flips, seeds, more_s = task
    res = ClassResult(name)
    t0 = time.time()
    t_end = t0 + budget_s
    hard = t0 + budget_s * 2 + 15 + (more_s or 0)
    cases = judge.cases(harness.get_cls(name))
    if more_s is None:          # nothing this class depends on changed: the main configurations
        cases = [c for c in cases if c.label in ("default", "low", "high") and c.fitmode not in ("step", "const")]
        more_s = 0
    queue = []
    covered = set()
    attempts = {}
    if not cases:
        res.errs["no configuration"] = 1
        return res

    def go(case, assign, seed):
        p = execute(case, assign, seed, judge.opts, judge.runner)
        p.flipped = bool(assign)
        new = False
        for d in p.run.decisions:
            k = (d[0], d[3])
            if k not in covered:
                covered.add(k)
                new = True
        judge_path(judge, case, p, res, hard)
        return p, new

    core.reset()
    for seed in seeds:
        for case in cases:
            if time.time() > hard:
                break
            p, new = go(case, {}, seed)
            queue.append((case, p))
    if more_s:
        t_end += more_s
        for case, seed in judge.longer(harness.get_cls(name), t0 + more_s):
            p, new = go(case, {}, seed)
            if new:
                queue.append((case, p))
    flips = 0
    # round robin over paths so that one path's branches do not eat the budget
    its = [(c, p, iter(enumerate(p.run.decisions))) for c, p in queue]
    while its and flips < max_flips and time.time() < t_end:
        nxt = []
        for case, p, it in its:
            if flips >= max_flips or time.time() > t_end:
                break
            done = True
            for i, (s, cond, kind, out) in it:
                key = (s, not out)
                if key in covered or attempts.get(key, 0) >= 2 or kind in ("pin", "order"):
                    continue
                attempts[key] = attempts.get(key, 0) + 1
                neg = n_not(cond)
                pcs = [d[1] for d in p.run.decisions[:i]] + [a for k, a in p.run.assumes if k <= i]
                rel = solve.slice_(neg.vs, pcs)
                v, m = solve.check(rel + [neg], res.stats, "full", 300)
                if v == "unknown":
                    v, m = solve.check(rel + [neg], res.stats, "abs", 300)
                if v == "unsat":
                    res.flips_unsat += 1
                    continue
                if v != "sat" or m is None:
                    res.flips_unknown += 1
                    continue
                flips += 1
                a = dict(p.run.values)
                a.update({k: x for k, x in m.items() if x is not None})
                q, new = go(case, a, p.run.seed)
                if key not in covered:
                    res.diverged += 1
                if new:
                    nxt.append((case, q, iter(enumerate(q.run.decisions))))
                done = False
                break
            if not done:
                nxt.append((case, p, it))
        its = nxt
    res.flips = flips
    res.sites = len(covered)
    res.sample = f"{name}: {res.paths} paths over {len(cases)} configurations, {len(covered)} branch sides, {res.proved} assertions proved"
    res.wall = time.time() - t0
    return res


class Judge:
    prop = None
    timeout = 800
    opts = None
    runner = None
    replayer = None
    pop = 10
    want = None

    def cases(self, cls):
        return given_starts(default_cases(cls, self.pop))

    def longer(self, cls, until):
        """other configurations and longer prefixes, in a fixed order, until the time is up"""
        vs = configs.variants(cls, 2, self.pop)
        r = random.Random(cls.__name__)
        n = 0
        while vs and time.time() < until and n < 400:
            label, kw = r.choice(vs)
            c = harness.Case(cls.__name__, kw, r.choice(self.modes), r.choice(["min", "max"]), dims=r.choice([2, 2, 3, 5]),
                             fitmode=r.choice(["rand", "const", "sphere", "sphere", "valley", "desc", "asc", "step", "zero", "neg"]), label=label,
                             warm=r.choice(self.warms))
            self.shape(c, r)
            if self.starts and not (c.starting or c.mix) and r.random() < 0.12:
                c.starting = r.choice(STARTS)
            n += 1
            yield c, 1000 + n

    starts = True
    modes = ("single", "swarm")
    warms = (3, 10, 25, 40)

    def shape(self, case, r):
        pass

    def concrete(self, o, case):
        return []

    def goals(self, o, case, run):
        return ()


WARM = 12
NP = 8           # the budgets below are meant for eight cores
CHANGED_S = 24.0
SHARED = {"mealpy.optimizer", "builtins"}


STARTS = ("lists", "arrays", "integers", "tuples", "matrix")


def given_starts(cases, i=1):
    """one of the cases starts from points of the caller"""
    if len(cases) > i:
        cases[i].starting = STARTS[sum(map(ord, cases[i].clsname)) % len(STARTS)]
    return cases


def default_cases(cls, pop=10, full=True, warm=True):
    H = harness.Case
    n = cls.__name__
    vs = configs.variants(cls, 2, pop)
    d = dict(vs)
    out = []
    base = d.get("default")
    if base is None:
        return []
    out.append(H(n, base, "single", "min"))
    out.append(H(n, base, "swarm", "max"))
    if "low" in d:
        out.append(H(n, d["low"], "single", "max", label="low"))
    if "high" in d:
        out.append(H(n, d["high"], "swarm", "min", label="high"))
    if full:
        out.append(H(n, base, "single", "max", dims=3, fitmode="step"))
        out.append(H(n, base, "swarm", "min", fitmode="const"))
    for label, kw in vs:
        if label not in ("default", "low", "high"):
            out.append(H(n, kw, "single", "min", label=label))
    if warm:
        out.append(H(n, base, "single", "max", warm=WARM))
        out.append(H(n, d.get("low", base), "swarm", "min", fitmode="const", label="low", warm=WARM // 2))
    return out


def run_sweep(judge, rep, names=None, total_s=75, flips=12, seeds=(1,), per_class=None):
    names = names or harness.all_names()
    changed = changed_modules()
    mods = {n: {c.__module__ for c in harness.get_cls(n).__mro__} - SHARED for n in names}
    own = [n for n in names if mods[n] & changed]
    shared = bool(changed - {harness.get_cls(n).__module__ for n in harness.all_names()})
    if shared:
        total_s *= 2          # shared code changed: every optimizer is concerned
    per = per_class or max(1.0, total_s * NP / len(names))
    # modules that differ from the recorded tree are explored longer
    more = min(CHANGED_S, CHANGED_S * 16 / max(1, len(own)))
    tasks = []
    for n in names:
        if n in own:
            tasks.append((judge, n, max(per * 4, more), max(flips * 4, int(4 * more)), tuple(seeds) + tuple(s + 100 for s in seeds), more / 2))
        else:
            tasks.append((judge, n, per, flips, tuple(seeds), 0 if shared or rep.thorough else None))
    tasks.sort(key=lambda t: -t[2])
    c = rep.cov
    c["bounds"].update({"epochs": 2, "population": judge.pop, "dimensions": "2 and 3", "flipped branches per class": flips,
                        "path exploration": "coverage-guided: every branch side seen on a base path is flipped once by the solver while the budget lasts; "
                                            "each assertion on each path is decided for all draws and objective values that follow the path"})
    und, nonrob, errs = {}, {}, {}
    tot = {"flips": 0, "flips_unsat": 0, "flips_unknown": 0, "diverged": 0, "limits": 0, "errors": 0, "branch_sides": 0, "classes": 0}
    funcs = set()
    for status, task, r in common.parallel(explore_class, tasks, limit=per * 10 + 60 + (more * 6 if own else 0), deadline=min(640, total_s * 4 + 90 + (more * 4 if own else 0)) if not rep.thorough else 6000):
        if status == "dropped":
            c["notes"]["classes not finished"] = task
            continue
        if status != "ok":
            c["notes"].setdefault("worker problems", []).append(f"{task[1] if isinstance(task, tuple) else task}: {status} {str(r)[-600:] if r else ''}")
            continue
        tot["classes"] += 1
        c["paths"] += r.paths
        c["transitions"] += r.decisions
        c["assertions_proved"] += r.proved
        c["traces_validated_against_impl"] += r.replays
        c["concretizations"] += r.concretizations
        for k in ("flips", "flips_unsat", "flips_unknown", "diverged", "limits", "errors"):
            tot[k] += getattr(r, k)
        tot["branch_sides"] += r.sites
        rep.add_stats(r.stats)
        c["decided_without_solver"] += r.trivial
        funcs |= r.functions
        for k, n in r.undecided.items():
            und[f"{k}"] = und.get(k, 0) + n
        nonrob.update(r.nonrobust)
        for k, n in r.errs.items():
            errs.setdefault(k, []).append(r.name)
        if r.sample and len(c["samples"]) < 12:
            c["samples"].append(r.sample)
        for k, (msg, wit) in r.viol.items():
            rep.violation(k, msg, wit)
    c["states"] = c["paths"]
    c["assertions_undecided"] += sum(und.values())
    c["functions_encoded"] += [f"{a}:{b}" for a, b in funcs]
    c["notes"]["undecided"] = dict(sorted(und.items(), key=lambda t: -t[1])[:60])
    c["notes"]["violated only for exact values of continuous draws (probability zero), not reported"] = dict(list(nonrob.items())[:40])
    c["notes"]["exceptions on explored paths"] = {k: sorted(set(v))[:5] for k, v in list(errs.items())[:60]}
    c.update({"exploration": tot})
    rep.assumptions += ASSUME
    return tot


ASSUME = [
    "a random draw may be any value of its documented support (continuous draws at least 2^-20 from the ends, normal and cauchy draws within 6 / 40 scales)",
    "the objective may return any value in [-1000, 1000] at each distinct point, and is a function of the point",
    "real arithmetic in the solver; every counterexample is replayed in floating point on the unmodified code before it is reported",
    "transcendental functions are bounded, not interpreted; medians are bounded by their operands",
    "mealpy is imported from the current tree of /repo; numpy, scipy, tqdm and the clock are the modelled environment",
]


def ast_hash(path):
    import ast
    try:
        with open(path) as f:
            t = ast.parse(f.read())
    except (SyntaxError, OSError):
        return "?"
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body[0].value.value = ""
    return hashlib.sha1(ast.dump(t).encode()).hexdigest()[:16]


def module_hashes():
    patch.load()
    return {m.__name__: ast_hash(m.__file__) for m in patch.MODS if getattr(m, "__file__", None)}


def changed_modules():
    """modules that differ from the tree the corpus was tuned on: they get a larger exploration budget (never a different verdict)"""
    import json
    import os
    p = os.path.join(common.HERE, "baseline.json")
    if not os.path.exists(p):
        return set()
    b = json.load(open(p))["hashes"]
    return {k for k, h in module_hashes().items() if b.get(k) != h}
