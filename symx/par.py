"""Stand-in for concurrent.futures: tasks run and complete in an arbitrary order.

Every scheduling choice (which submitted task runs next, which finished future is reported next) is an input
variable; the run branches on it, so the solver can ask for another order.  A process pool's task works on a
copy of the bound object taken when it is submitted, and its result is a copy.
"""
import copy
import types
import functools
import numpy as np
from . import core, rng, npshim
from .core import is_sym, val_of


class Schedule:
    def __init__(self, src, log=None):
        self.src = src
        self.n = 0
        self.log = []

    def pick(self, k):
        """one of 0..k-1"""
        if k <= 1:
            return 0
        self.n += 1
        nm = f"{self.src.tag}sched.{self.n}"
        c = self.src.int(nm, 0, k - 1, lambda: int(self.src.u(nm) * k))
        if is_sym(c):
            for j in range(k - 1):
                if bool(c == j):
                    self.log.append(j)
                    return j
            self.log.append(k - 1)
            return k - 1
        self.log.append(int(c))
        return int(c)


def isolate(fn):
    """the callable a worker process would receive"""
    if isinstance(fn, functools.partial):
        return functools.partial(isolate(fn.func), *fn.args, **{k: clone(v) if hasattr(v, "solve") else v for k, v in fn.keywords.items()})
    me = getattr(fn, "__self__", None)
    if me is None or isinstance(me, type) or isinstance(me, types.ModuleType):
        return fn
    return getattr(clone(me), fn.__name__)


def clone(o):
    c = copy.copy(o)
    for k, v in list(getattr(c, "__dict__", {}).items()):
        if isinstance(v, (rng.Gen, rng.PyRandom)):
            setattr(c, k, copy.deepcopy(v))
        elif isinstance(v, np.ndarray):
            setattr(c, k, v.copy())
        elif isinstance(v, (list, dict)) and k not in ("pop",):
            setattr(c, k, copy.copy(v))
        elif type(v).__module__.startswith("mealpy.utils.problem") or (hasattr(v, "obj_func") and hasattr(v, "bounds")):
            setattr(c, k, clone(v))
        elif hasattr(v, "solve") and hasattr(v, "set_parameters"):
            setattr(c, k, clone(v))
        elif k == "bounds" and isinstance(v, list):
            setattr(c, k, [clone(b) for b in v])
    return c


class Future:
    def __init__(self, pool, fn, args, kw):
        self.pool, self.fn, self.args, self.kw = pool, fn, args, kw
        self.done_ = False
        self.res = self.exc = None

    def run(self):
        try:
            self.res = self.fn(*self.args, **self.kw)
            if self.pool.process:
                self.res = copy.copy(self.res)
        except Exception as e:
            self.exc = e
        self.done_ = True

    def result(self, timeout=None):
        self.pool.until(self)
        if self.exc is not None:
            raise self.exc
        return self.res

    def done(self):
        return self.done_

    def exception(self, timeout=None):
        self.pool.until(self)
        return self.exc

    def add_done_callback(self, f):
        self.pool.until(self)
        f(self)


class Pool:
    process = False
    sched = None

    def __init__(self, max_workers=None, *a, **k):
        self.max_workers = max_workers
        self.pending = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.drain()
        return False

    def submit(self, fn, *args, **kw):
        f = Future(self, isolate(fn) if self.process else fn, args, kw)
        self.pending.append(f)
        return f

    def step(self):
        self.pending.pop(self.sched.pick(len(self.pending))).run()

    def until(self, f):
        while not f.done_ and self.pending:
            self.step()

    def drain(self):
        while self.pending:
            self.step()

    def shutdown(self, *a, **k):
        self.drain()

    def map(self, fn, *its, **kw):
        fs = [self.submit(fn, *a) for a in zip(*its)]
        self.drain()

        def gen():
            for f in fs:
                yield f.result()
        return gen()


def module(src):
    """-> (stub for concurrent.futures, the schedule)"""
    sch = Schedule(src)

    class ThreadPoolExecutor(Pool):
        sched = sch

    class ProcessPoolExecutor(Pool):
        process = True
        sched = sch

    def as_completed(fs, timeout=None):
        left = list(fs)
        for f in left:
            f.pool.drain()
        while left:
            yield left.pop(sch.pick(len(left)))

    def wait(fs, *a, **k):
        for f in fs:
            f.pool.drain()
        return types.SimpleNamespace(done=set(fs), not_done=set())
    m = types.SimpleNamespace(ThreadPoolExecutor=ThreadPoolExecutor, ProcessPoolExecutor=ProcessPoolExecutor, as_completed=as_completed, wait=wait,
                              Future=Future, FIRST_COMPLETED="FIRST_COMPLETED", ALL_COMPLETED="ALL_COMPLETED")
    return m, sch


def extra(src):
    import concurrent.futures as cf
    m, _ = module(src)
    return {"by_value": [(cf, m), (cf.ThreadPoolExecutor, m.ThreadPoolExecutor), (cf.ProcessPoolExecutor, m.ProcessPoolExecutor),
                         (cf.as_completed, m.as_completed), (cf.wait, m.wait)]}
