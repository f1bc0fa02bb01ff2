"""Legal constructor arguments for every optimizer, found from what its own validation accepts."""
import inspect
import math
from . import patch


def _pick(name, value, bound, kind, variant):
    if bound is None:
        return value
    lo, hi = bound
    opened = isinstance(bound, tuple)
    if kind == "int":
        l = -1000 if lo == float("-inf") else math.ceil(lo)
        h = l + 1000 if hi == float("inf") else math.floor(hi)
        if opened and l == lo:
            l += 1
        if opened and h == hi:
            h -= 1
        if l > h:
            return None
        if variant == "low":
            return l
        if variant == "high":
            return min(h, l + 7)
        v = int(value) if isinstance(value, (int, float)) else l
        return min(max(v, l), h)
    l = -1000.0 if lo == float("-inf") else float(lo)
    h = l + 1000.0 if hi == float("inf") else float(hi)
    if l > h:
        return None
    if variant == "low":
        return l if not opened else l + 0.02 * min(h - l, 10)
    if variant == "high":
        return h if not opened else h - 0.02 * (h - l)
    v = float(value)
    if l < v < h or (not opened and l <= v <= h):
        return v
    return l + 0.5 * (h - l) if not opened or True else v


KEEP = ("epoch", "pop_size")


def build(cls, variant="default", epoch=2, pop=5):
    """-> (kwargs, instance factory) or None.  pop_size is raised to the smallest legal value >= pop."""
    patch.load()
    import mealpy.utils.validator as V
    Val = V.Validator
    sig = inspect.signature(cls.__init__)
    names = [p for p in sig.parameters if p not in ("self", "kwargs", "args")]
    forced = {}
    if "epoch" in names or True:
        forced["epoch"] = epoch
        forced["pop_size"] = pop
    seen = {}
    orig = {k: getattr(Val, k) for k in ("check_int", "check_float", "check_is_int_and_float", "check_tuple_int", "check_tuple_float", "check_str", "check_bool")}

    def wrapnum(kind):
        def f(self, name, value, bound=None):
            seen[name] = (kind, bound)
            try:
                r = orig["check_" + kind](self, name, value, bound)
                if variant in ("low", "high") and name not in KEEP and name not in forced and name in names:
                    v = _pick(name, value, bound, kind, variant)
                    if v is not None:
                        try:
                            r = orig["check_" + kind](self, name, v, bound)
                            forced[name] = r
                        except ValueError:
                            pass
                return r
            except ValueError:
                if name in ("pop_size", "epoch") or name in names:
                    v = _pick(name, value, bound, kind, variant)
                    if v is not None:
                        forced[name] = v
                        raise
                raise
        return f

    def intfloat(self, name, value, bound_int=None, bound_float=None):
        seen[name] = ("intfloat", (bound_int, bound_float))
        try:
            return orig["check_is_int_and_float"](self, name, value, bound_int, bound_float)
        except ValueError:
            v = _pick(name, 1, bound_int, "int", variant)
            if v is None:
                v = _pick(name, 0.2, bound_float, "float", "default")
            forced[name] = v
            raise

    def chk_str(self, name, value, bound=None):
        seen[name] = ("str", bound)
        return orig["check_str"](self, name, value, bound)

    def chk_bool(self, name, value, bound=(True, False)):
        seen[name] = ("bool", bound)
        return orig["check_bool"](self, name, value, bound)
    Val.check_int, Val.check_float, Val.check_is_int_and_float = wrapnum("int"), wrapnum("float"), intfloat
    Val.check_str, Val.check_bool = chk_str, chk_bool
    if isinstance(variant, dict):
        forced.update(variant)
        variant = "default"
    last = None
    try:
        for attempt in range(40):
            kw = {k: v for k, v in forced.items() if k in names or k in KEEP}
            try:
                cls(**kw)
                kw2 = {k: v for k, v in forced.items() if k in names or k in KEEP}
                if kw2 == kw:
                    return kw, seen
                try:
                    cls(**kw2)
                    return kw2, seen
                except (ValueError, TypeError):
                    for k in list(forced):
                        if k not in kw:
                            del forced[k]
                    return kw, seen
            except (ValueError, TypeError) as e:
                if str(e) == last and attempt > 20:
                    # a relation between parameters and pop_size may be unsatisfiable: grow the population
                    pass
                last = str(e)
                unsat = [n for n, (k, b) in seen.items() if k in ("int", "float") and b is not None and _pick(n, 0, b, k, "low") is None]
                if unsat:
                    if attempt % 2:
                        forced["epoch"] = min(forced["epoch"] + 1, 6)
                    else:
                        forced["pop_size"] = forced.get("pop_size", pop) + 2
                    if forced["pop_size"] > 60:
                        return None
                    seen.clear()
        return None
    finally:
        for k, f in orig.items():
            setattr(Val, k, f)


def variants(cls, epoch=2, pop=5):
    """-> list of (label, kwargs): defaults, low/high ends of the numeric ranges, each option of string/boolean switches"""
    out = []
    base = build(cls, "default", epoch, pop)
    if base is None:
        return out
    kw, seen = base
    out.append(("default", kw))
    for v in ("low", "high"):
        r = build(cls, v, epoch, pop)
        if r is not None and r[0] not in [k for _, k in out]:
            out.append((v, r[0]))
    names = inspect.signature(cls.__init__).parameters
    for n, (kind, bound) in seen.items():
        if n not in names or n in ("mode",):
            continue
        opts = list(bound) if kind == "str" and bound else [True, False] if kind == "bool" else []
        for o in opts:
            if o == names[n].default or len(out) > 24:
                continue
            r = build(cls, {n: o}, epoch, pop)
            if r is not None and r[0] not in [k for _, k in out]:
                out.append((f"{n}={o}", r[0]))
    return out
