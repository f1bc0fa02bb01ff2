"""Path exploration: run, flip recorded branches with the solver, run again."""
import time
from . import core, solve
from .core import Run, n_not


class Path:
    __slots__ = ("run", "result", "error", "assign", "forced", "tag", "flipped")

    def __init__(self, run, result, error):
        self.run, self.result, self.error = run, result, error

    def pc(self, upto=None):
        r = self.run
        ds = r.decisions if upto is None else r.decisions[:upto]
        k = len(r.decisions) if upto is None else upto
        return [d[1] for d in ds] + [a for i, a in r.assumes if i <= k]


class Exploration:
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.sites = set()
        self.covered = set()
        self.flips_unsat = 0
        self.flips_unknown = 0
        self.exhausted = False
        self.concretized = {}
        self.functions = set()
        self.stats = solve.Stats()
        self.diverged = 0
        self.errors = 0


def explore_all(execute, on_path, max_paths=2000, max_time=60.0, seed=1, flip_timeout=2000, opts=None, ex=None):
    """Generational search over every feasible path of `execute(run) -> result`.

    Exhausted means: every branch of every explored path was flipped and the solver answered each flip
    with a model (followed) or unsat.  on_path(path) is called once per path.
    """
    ex = ex or Exploration()
    t0 = time.time()
    work = [({}, 0, (), 0)]   # assignment, first decision to flip, negations of what earlier siblings took there, retries
    complete = True
    while work:
        if ex.paths >= max_paths or time.time() - t0 > max_time:
            complete = False
            break
        assign, bound, excl, tries = work.pop()
        run = Run(assign, seed, opts)
        path = execute(run)
        ex.paths += 1
        ex.decisions += len(run.decisions)
        for k, c in run.concretized.items():
            ex.concretized[k] = ex.concretized.get(k, 0) + c
        if run.concretized:
            complete = False
        on_path(path)
        full = dict(run.values)
        for i in range(len(run.decisions) - 1, bound - 1, -1):
            s, cond, kind, out = run.decisions[i]
            ex.sites.add(s)
            neg = n_not(cond)
            if neg.op == "bconst":
                continue
            # a decision with more than two outcomes (a value, an order) is flipped until none is left
            others = excl if i == bound else ()
            if any(o is cond for o in others):
                continue            # two outcomes only: the other one is the sibling's
            if any(o is neg for o in others):
                # the model of an abstracted function was not reproduced by the real one: ask again with finer bounds
                pcs = [d[1] for d in run.decisions[:i]] + [a for k, a in run.assumes if k <= i]
                neg = n_not(cond)
                rel = solve.slice_(neg.vs, pcs + [o for o in others if o is not neg]) + [neg]
                again = None
                for t in range(tries, 3):
                    old = solve.ENVELOPE
                    solve.ENVELOPE = max(16, old) * 4 ** min(t, 1)
                    solve.MARGIN = (2e-2, 1e-3, 0)[t]
                    v, m = solve.check(rel, ex.stats, "full", flip_timeout * 2)
                    solve.ENVELOPE, solve.MARGIN = old, 0
                    if v == "sat" and m is not None:
                        again = dict(full)
                        again.update({k: x for k, x in m.items() if x is not None})
                        work.append((again, i, tuple(others), t + 1))
                        break
                if again is not None:
                    continue
                if tries < 3 and v == "unsat":
                    ex.flips_unsat += 1
                    continue
                ex.diverged += 1
                complete = False
                continue
            pcs = [d[1] for d in run.decisions[:i]] + [a for k, a in run.assumes if k <= i] + list(others)
            rel = solve.slice_(neg.vs, pcs)
            v, m = solve.check(rel + [neg], ex.stats, "full", flip_timeout)
            if v == "sat" and m is not None:
                a = dict(full)
                a.update({k: x for k, x in m.items() if x is not None})
                work.append((a, i, tuple(others) + (neg,), 0))
            elif v == "unsat":
                ex.flips_unsat += 1
            else:
                ex.flips_unknown += 1
                complete = False
    ex.exhausted = complete and not work
    return ex


def explore_cover(execute, on_path, bases, max_paths, max_time, ex=None, flip_timeout=400, tries=2, opts=None, seed=1, prefer=None):
    """Coverage-guided search: follow the base assignments, then flip branches whose other side was never seen."""
    ex = ex or Exploration()
    t0 = time.time()
    attempts = {}
    queue = []

    def do(assign, sd):
        run = Run(assign, sd, opts)
        path = execute(run)
        ex.paths += 1
        ex.decisions += len(run.decisions)
        for k, c in run.concretized.items():
            ex.concretized[k] = ex.concretized.get(k, 0) + c
        new = False
        for s, cond, kind, out in run.decisions:
            key = (s, out)
            if key not in ex.covered:
                ex.covered.add(key)
                new = True
        on_path(path)
        if path.error is not None:
            ex.errors += 1
        return path, new

    for assign, sd in bases:
        if ex.paths >= max_paths or time.time() - t0 > max_time:
            return ex
        p, _ = do(assign, sd)
        queue.append((p, sd))
    while queue and ex.paths < max_paths and time.time() - t0 < max_time:
        p, sd = queue.pop(0)
        ds = p.run.decisions
        for i, (s, cond, kind, out) in enumerate(ds):
            if ex.paths >= max_paths or time.time() - t0 > max_time:
                return ex
            if kind in ("pin", "order"):
                key, lim = (s, "x"), 1
                if prefer and kind not in prefer:
                    continue
            else:
                key, lim = (s, not out), tries
                if key in ex.covered:
                    continue
            if attempts.get(key, 0) >= lim:
                continue
            attempts[key] = attempts.get(key, 0) + 1
            neg = n_not(cond)
            pcs = [d[1] for d in ds[:i]] + [a for k, a in p.run.assumes if k <= i]
            rel = solve.slice_(neg.vs, pcs)
            v, m = solve.check(rel + [neg], ex.stats, "full", flip_timeout)
            if v == "unknown":
                ex.flips_unknown += 1
                v, m = solve.check(rel + [neg], ex.stats, "abs", flip_timeout)
            if v == "unsat":
                ex.flips_unsat += 1
                continue
            if v != "sat" or m is None:
                continue
            a = dict(p.run.values)
            a.update({k: x for k, x in m.items() if x is not None})
            q, new = do(a, sd)
            if key not in ex.covered and kind not in ("pin", "order"):
                ex.diverged += 1
            if new:
                queue.append((q, sd))
    return ex
