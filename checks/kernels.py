"""Kernel checks: one function (or a short public call sequence) with symbolic inputs, every feasible path enumerated.

A kernel is a function body(k) that builds its inputs from k (reals, integers, choices), calls the real code and
states what must hold through k.check(key, condition, text).  The same body runs symbolically (the solver ranges over
all inputs and draws) and concretely (replay of a counterexample on the unmodified code).
"""
import math
import time
import traceback
import os
import sys
import numpy as np
from symx import core, explore, harness, npshim, patch, rng, solve
from symx.core import Run, PathLimit, SymBool, is_sym, node_of, val_of, n_and, n_or, n_not, TRUE, FALSE
from . import common, sweep


class Skip(Exception):
    """the inputs of this path are outside the property's preconditions"""


def py(x):
    """plain Python numbers, like the replayed values"""
    return type(x)(x.n, x.v, True) if is_sym(x) else x


class Ctx:
    def __init__(self, src, symbolic):
        self.src = src
        self.symbolic = symbolic
        self.checks = []         # (key, node or bool, upto, msg)
        self.reached = []        # (key, node or bool, upto)
        self.error = None

    # ---- inputs
    def real(self, name, lo=-100.0, hi=100.0, base=None):
        return py(self.src.real("in." + name, lo, hi, (lambda: base) if base is not None else (lambda: lo + (hi - lo) * harness.h01("in", self.src.seed, name))))

    def int(self, name, lo, hi, base=None):
        return py(self.src.int("in." + name, lo, hi, (lambda: base) if base is not None else (lambda: lo + int((hi - lo + 1) * harness.h01("in", self.src.seed, name)))))

    def pick(self, name, options):
        """one of the options (a decision, so every option is explored)"""
        c = self.int(name, 0, len(options) - 1, 0)
        if is_sym(c):
            for j in range(len(options) - 1):
                if bool(c == j):
                    return options[j]
            return options[-1]
        return options[int(c)]

    def flag(self, name):
        return self.pick(name, (False, True))

    def reals(self, name, n, lo=-100.0, hi=100.0):
        return [self.real(f"{name}{i}", lo, hi) for i in range(n)]

    def arr(self, xs):
        return npshim.asarr(list(xs)) if self.symbolic else np.array(list(xs), dtype=float)

    def vec(self, name, n, lo=-100.0, hi=100.0):
        return self.arr(self.reals(name, n, lo, hi))

    def gen(self, seed=1):
        import mealpy.optimizer as mo
        return mo.np.random.default_rng(seed)

    def require(self, cond):
        if not bool(cond):
            raise Skip()

    # ---- assertions
    def check(self, key, cond, msg=""):
        upto = len(core.CUR.decisions) if core.CUR is not None else 0
        if isinstance(cond, np.ndarray):
            cond = conj(*list(cond.ravel().tolist()))
        self.checks.append((key, cond, upto, msg))

    def eq(self, key, a, b, msg="", tol=1e-9):
        self.check(key, close(a, b, tol), msg or f"{show(a)} should be {show(b)}")

    def reach(self, key, cond=True):
        upto = len(core.CUR.decisions) if core.CUR is not None else 0
        self.reached.append((key, cond, upto))

    def raises(self, key, exc, f, *a, **kw):
        """f must raise exc"""
        try:
            r = f(*a, **kw)
        except exc:
            self.check(key, True)
            return None
        self.check(key, False, f"returned {show(r)} instead of raising")


def show(x):
    try:
        if is_sym(x):
            return repr(val_of(x))
        if isinstance(x, (list, tuple)):
            return "[" + ", ".join(show(v) for v in x) + "]"
        if isinstance(x, np.ndarray):
            return show(harness.scal(x))
        return repr(x)[:120]
    except Exception:
        return "?"


def B(c):
    """condition -> node"""
    if isinstance(c, SymBool):
        return c.n
    if is_sym(c):
        return core.truth(c) if not isinstance(core.truth(c), bool) else (TRUE if core.truth(c) else FALSE)
    return TRUE if bool(c) else FALSE


def mkb(node, v):
    return core.wrap(node, v, True)


def conj(*cs):
    n, v = TRUE, True
    for c in cs:
        n = n_and(n, B(c))
        v = v and bool(val_of(c))
    return mkb(n, v) if n.op != "bconst" else n.val


def disj(*cs):
    n, v = FALSE, False
    for c in cs:
        n = n_or(n, B(c))
        v = v or bool(val_of(c))
    return mkb(n, v) if n.op != "bconst" else n.val


def neg(c):
    n = n_not(B(c))
    return mkb(n, not bool(val_of(c))) if n.op != "bconst" else n.val


def imp(a, b):
    return disj(neg(a), b)


def close(a, b, tol=1e-9):
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
        a, b = flat(a), flat(b)
        if len(a) != len(b):
            return False
        return conj(*[close(x, y, tol) for x, y in zip(a, b)])
    if isinstance(val_of(a), (str, type(None))) or isinstance(val_of(b), (str, type(None))):
        return a == b
    va, vb = float(val_of(a)), float(val_of(b))
    if isinstance(val_of(a), (bool, np.bool_)) or isinstance(val_of(b), (bool, np.bool_)):
        return conj(a == b)
    if core._nonfinite(va) or core._nonfinite(vb):
        return va == vb or (va != va and vb != vb)
    d = a - b
    s = tol * max(1.0, abs(vb))
    return conj(d <= s, d >= -s)


def flat(x):
    if isinstance(x, np.ndarray):
        return harness.scal(x)
    out = []
    for v in x:
        if isinstance(v, (list, tuple, np.ndarray)):
            out += flat(v)
        else:
            out.append(v)
    return out


def run_body(body, k):
    try:
        body(k)
    except Skip:
        k.skipped = True
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        k.error = e
        k.tb = [(f.filename, f.name, f.lineno) for f in tb]
        fr = harness.mealpy_frames(k.tb)
        last = next((f for f in reversed(fr) if not f[1].startswith("<") and harness.known_function(f[0][:-3], f[1])), None)
        where = tb[-1]
        if last is None and os.path.basename(where.filename).startswith("k_") and (isinstance(e, (KeyError, IndexError)) or "NoneType" in str(e)):
            # the code under test ran, but what it left behind lacks a part that is asked for here
            k.check(f"a part of the outcome is missing ({type(e).__name__}: {str(e)[:60]})", False, f"{type(e).__name__}: {str(e)[:150]} in {where.name}: {where.line}")
        elif last is not None:
            k.check(f"raises {type(e).__name__} in {last[1]}", False, f"{type(e).__name__}: {str(e)[:150]} at {last[0]}:{last[2]}")
        else:
            k.harness_error = f"{type(e).__name__}: {str(e)[:200]} at {k.tb[-1]}"
    return k


class KResult:
    def __init__(self, name):
        self.name = name
        self.viol = {}
        self.undecided = {}
        self.nonrobust = {}
        self.diverged = self.proved = self.trivial = self.replays = self.skipped = self.limits = 0
        self.reach = {}
        self.harness_errors = {}
        self.keys = {}
        self.functions = set()


def replay(body, assign, seed, names, extra=None):
    """{failed key: message}, keys reached; on the unmodified code"""
    try:
        with common.alarm_inner(20):
            src = rng.Source(assign, seed, False)
            with patch.concrete(assign, seed, src=src, extra=extra(src, False) if extra else None):
                k = run_body(body, Ctx(src, False))
    except common.PathTimeout:
        return {}, src, None
    return {key: msg for key, c, _, msg in k.checks if not bool(val_of(c))}, src, k


def run_kernel(task):
    mod, prop, name, budget, seed, max_paths = task
    import importlib
    body, opts = importlib.import_module(mod).KERNELS[prop][name]
    res = KResult(name)
    core.reset()
    solve.ENVELOPE = opts.get("envelope", 16)
    state = {}

    def execute(run):
        k = None
        src = rng.Source(run.assign, run.seed, True)
        err = None
        try:
            with common.alarm_inner(opts.get("path_s", 15)):
                src.exact_choice = True
                with patch.symbolic(run, src, opts["extra"](src, True) if "extra" in opts else None):
                    k = run_body(body, Ctx(src, True))
        except PathLimit:
            err = "limit"
        except common.PathTimeout:
            err = "timeout"
        return explore.Path(run, k, err)

    def fail(key, assign, sd):
        """confirm on the real code"""
        bad, src, _ = replay(body, assign, sd, None, opts.get("extra"))
        res.replays += 1
        for kk, msg in bad.items():
            if kk in res.viol:
                continue
            draws = [n for n in src.values if sweep.is_draw(n)]
            ok = not draws
            for j in range(3):
                if ok:
                    break
                b2, _, _ = replay(body, sweep.jitter(dict(src.values), j), sd, None, opts.get("extra"))
                res.replays += 1
                ok = kk in b2
            if ok:
                res.viol[kk] = (msg, {"kernel": name, "assign": src.values, "seed": sd})
            else:
                res.nonrobust[kk] = msg
        return key in bad

    def on_path(p):
        k = p.result
        for d in p.run.decisions:
            res.functions.add((d[0][0], d[0][1]))
        if k is None or p.error:
            res.limits += 1
            return
        if getattr(k, "harness_error", None):
            res.harness_errors[k.harness_error] = res.harness_errors.get(k.harness_error, 0) + 1
            if sum(res.harness_errors.values()) <= 40:
                fail(None, p.run.values, p.run.seed)
            return
        if getattr(k, "skipped", False):
            res.skipped += 1
        if ex.paths <= 40 or ex.paths % 8 == 0:
            fail(None, p.run.values, p.run.seed)        # the same path on the unmodified code: the model agrees, or the code is shown to fail
        for key, c, upto, msg in k.checks:
            res.keys[key] = res.keys.get(key, 0) + 1
            if key in res.viol:
                continue
            g = B(c)
            if g.op == "bconst" and g.val:
                res.trivial += 1
                res.proved += 1
                continue
            if not bool(val_of(c)):
                if res.undecided.get(key, 0) <= 8 and not fail(key, p.run.values, p.run.seed):
                    res.undecided[key] = res.undecided.get(key, 0) + 1
                continue
            v, m = solve.prove(p.pc(upto), g, ex.stats, opts.get("timeout", 3000))
            if v == "proved":
                res.proved += 1
                continue
            ok = False
            if m is not None and res.undecided.get(key, 0) <= 8:
                a = dict(p.run.values)
                a.update({n: x for n, x in m.items() if x is not None})
                ok = fail(key, a, p.run.seed)
            if not ok:
                res.undecided[key] = res.undecided.get(key, 0) + 1
        for key, c, upto in k.reached:
            if res.reach.get(key):
                continue
            g = B(c)
            if bool(val_of(c)) and (c is True or is_sym(c) or c):
                res.reach[key] = True
                continue
            res.reach.setdefault(key, False)
            if g.op == "bconst":
                continue
            v, m = solve.check([x for x in p.pc(upto)] + [g], ex.stats, "full", 2000)
            if v == "sat":
                res.reach[key] = True
            elif v == "unknown":
                res.reach[key] = None

    ex = explore.Exploration()
    explore.explore_all(execute, on_path, max_paths=max_paths or opts.get("max_paths", 1500), max_time=budget, seed=seed, ex=ex,
                        flip_timeout=opts.get("flip_timeout", 2000), opts={"max_decisions": 20000, "exact_median": True})
    res.paths, res.decisions, res.exhausted = ex.paths, ex.decisions, ex.exhausted
    res.flips_unsat, res.flips_unknown, res.diverged = ex.flips_unsat, ex.flips_unknown, ex.diverged
    res.stats = ex.stats
    res.concretizations = sum(ex.concretized.values())
    res.conc = {f"{s[0][0]}:{s[0][2]}:{s[1]}": n for s, n in list(ex.concretized.items())[:6]}
    # what must be possible but was on no path: confirm by running the real code on many draws
    if res.exhausted:
        for key, ok in res.reach.items():
            if ok is False:
                seen = False
                for sd in range(400):
                    _, _, k = replay(body, {}, 1000 + sd, None, opts.get("extra"))
                    res.replays += 1
                    if k is not None and any(r[0] == key and bool(val_of(r[1])) for r in k.reached):
                        seen = True
                        break
                if not seen:
                    res.viol[key] = ("no draw can produce it: the solver exhausted every path and 400 runs of the real code never did", {"kernel": name})
    return res


def run_kernels(rep, mod, prop, total_s=60, only=None):
    import importlib
    ks = importlib.import_module(mod).KERNELS[prop]
    names = [n for n in ks if not only or n in only]
    tasks = []
    per = max(4.0, total_s * common.NPROC / max(1, len(names)))
    for n in names:
        b = min(ks[n][1].get("budget", 20.0), max(per, ks[n][1].get("floor", 0.0))) if not rep.thorough else ks[n][1].get("budget", 20.0) * 10
        tasks.append((mod, prop, n, b, rep.seed, ks[n][1].get("max_paths") and (ks[n][1]["max_paths"] if not rep.thorough else ks[n][1]["max_paths"] * 10)))
    c = rep.cov
    ker = {}
    for status, task, r in common.parallel(run_kernel, tasks, limit=per * 12 + 120 if not rep.thorough else 3000, deadline=total_s * 4 + 120 if not rep.thorough else 6000):
        if status != "ok":
            c["notes"].setdefault("worker problems", []).append(f"{task[2] if isinstance(task, tuple) else task}: {status} {str(r)[-700:] if r else ''}")
            continue
        c["paths"] += r.paths
        c["transitions"] += r.decisions
        c["assertions_proved"] += r.proved
        c["decided_without_solver"] += r.trivial
        c["traces_validated_against_impl"] += r.replays
        c["concretizations"] += r.concretizations
        rep.add_stats(r.stats)
        c["assertions_undecided"] += sum(r.undecided.values())
        c["functions_encoded"] += [f"{a}:{b}" for a, b in r.functions]
        ker[r.name] = {"paths": r.paths, "exhaustive": r.exhausted, "proved": r.proved, "undecided": r.undecided, "outside preconditions": r.skipped,
                       "infeasible flips": r.flips_unsat, "unknown flips": r.flips_unknown, "assertions": r.keys, "reachable": r.reach}
        if r.diverged:
            ker[r.name]["diverged"] = r.diverged
        if r.conc:
            ker[r.name]["concretized at"] = r.conc
        if r.harness_errors:
            ker[r.name]["harness errors"] = r.harness_errors
        if r.limits:
            ker[r.name]["paths cut"] = r.limits
        if r.nonrobust:
            ker[r.name]["exact draws only"] = r.nonrobust
        if not r.keys:
            ker[r.name]["vacuous"] = True
        for k, (msg, wit) in r.viol.items():
            rep.violation(f"{r.name}|{k}", msg, wit)
    c["states"] = c["paths"]
    c["functions_encoded"] = sorted(set(c["functions_encoded"]))
    c["kernels"] = dict(sorted(ker.items()))
    c["samples"] += [f"{n}: {v["paths"]} paths, exhaustive={v['exhaustive']}, {v['proved']} assertions proved" for n, v in sorted(ker.items())][:20]
    rep.assumptions += sweep.ASSUME
