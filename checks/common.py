"""What every check shares: tiers, findings, evidence, the worker pool, witnesses."""
import hashlib
import json
import os
import re
import signal
import sys
import time
import traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)


class Timeout(BaseException):
    pass


class alarm:
    """limit the wall time of a block (main thread of a worker process)"""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        def h(sig, fr):
            raise Timeout()
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


class PathTimeout(BaseException):
    pass


class alarm_inner:
    """a nested limit: fires inside the outer alarm without cancelling it"""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        def h(sig, fr):
            raise PathTimeout()
        self.left = signal.getitimer(signal.ITIMER_REAL)[0]
        self.t0 = time.time()
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old if self.old is not None else signal.SIG_DFL)
        if self.left:
            signal.setitimer(signal.ITIMER_REAL, max(0.05, self.left - (time.time() - self.t0)))
        return False


class Findings:
    """known_findings.txt: lines `finding: property=<id> key=<key> :: text` and `fixed: property=<id> <commit> <text>`"""

    def __init__(self, prop):
        self.prop = prop
        self.keys = {}
        p = os.path.join(HERE, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"finding: property=(\S+) key=(.+?) :: (.*)$", line.rstrip("\n"))
                if m and m.group(1) == prop:
                    self.keys[m.group(2)] = m.group(3)

    def match(self, key):
        return key in self.keys


class Report:
    """Accumulates the outcome of one check and ends the process accordingly."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.findings = Findings(prop)
        self.violations = {}       # key -> (message, witness)
        self.seen_findings = {}
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "solver_queries": 0, "solver_unsat": 0, "solver_sat": 0, "solver_unknown": 0, "solver_s": 0.0,
                    "decided_without_solver": 0, "paths": 0, "assertions_proved": 0, "assertions_undecided": 0,
                    "concretizations": 0, "functions_encoded": [], "bounds": {}, "notes": {}}
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def violation(self, key, msg, witness):
        if self.findings.match(key):
            self.seen_findings[key] = msg
            return False
        if key not in self.violations:
            self.violations[key] = (msg, witness)
        return True

    def add_stats(self, st):
        c = self.cov
        c["solver_queries"] += st.queries
        c["solver_unsat"] += st.unsat
        c["solver_sat"] += st.sat
        c["solver_unknown"] += st.unknown
        c["solver_s"] = round(c["solver_s"] + st.time, 3)
        c["decided_without_solver"] += st.trivial

    def finish(self):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        lines = []
        for i, (key, (msg, wit)) in enumerate(sorted(self.violations.items())):
            if i >= 200:
                lines.append(f"... and {len(self.violations) - 200} more")
                break
            d = os.path.join(HERE, "replays")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, f"{self.prop}-{hashlib.sha1(key.encode()).hexdigest()[:10]}.json")
            with open(p, "w") as f:
                json.dump({"property": self.prop, "key": key, "what": msg, "witness": wit}, f, indent=1, default=str)
            lines.append(f"VIOLATION property={self.prop} replay={p}\n    {key}: {msg}")
        self.cov["functions_encoded"] = sorted(self.cov["functions_encoded"])[:400]
        self.cov["known_findings_reproduced"] = sorted(self.seen_findings)
        if not self.cov["samples"]:
            self.cov["samples"] = ["(none)"]
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(HERE, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for key, text in self.findings.keys.items():
            how = "reproduced in this run" if key in self.seen_findings else "listed; not reached by this run's paths"
            print(f"KNOWN-FINDING: property={self.prop} {text} [{key}; {how}]")
        for l in lines:
            print(l)
        c = self.cov
        print(f"{self.prop} {self.tier}: paths={c['paths']} assertions proved={c['assertions_proved']} undecided={c['assertions_undecided']} "
              f"queries={c['solver_queries']} solver={c['solver_s']:.1f}s violations={len(self.violations)} wall={time.time() - self.t0:.1f}s")
        if not self.violations and not c["paths"]:
            print(f"{self.prop}: nothing could be executed; this is not a verdict")
            sys.stdout.flush()
            return 2
        sys.stdout.flush()
        return 1 if self.violations else 0


def _worker(args):
    fn, a, limit = args
    try:
        with alarm(limit):
            return ("ok", a, fn(a))
    except Timeout:
        return ("timeout", a, None)
    except MemoryError:
        return ("error", a, "MemoryError")
    except BaseException as e:
        return ("error", a, f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:])


def _init(mem):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except (ValueError, OSError):
        pass
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def parallel(fn, tasks, limit=120, deadline=600, nproc=None, chunk=1):
    """yield (status, task, result) as workers finish; whatever is unfinished at the deadline is dropped"""
    tasks = list(tasks)
    n = min(nproc or NPROC, max(1, len(tasks)))
    t_end = time.time() + deadline
    ctx = mp.get_context("fork")
    pool = ctx.Pool(n, _init, (6 * 2 ** 30,), maxtasksperchild=60)
    done = 0
    try:
        it = pool.imap_unordered(_worker, [(fn, t, limit) for t in tasks], chunksize=chunk)
        while done < len(tasks):
            left = t_end - time.time()
            if left <= 0:
                break
            try:
                r = it.next(timeout=left)
            except StopIteration:
                break
            except mp.TimeoutError:
                break
            done += 1
            yield r
    finally:
        pool.terminate()
        pool.join()
    if done < len(tasks):
        yield ("dropped", len(tasks) - done, None)
