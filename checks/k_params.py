"""Hyper-parameter validation of every optimizer's constructor (C08): params.json lists the accepted ranges."""
import json
import os
import re
from symx import harness
from .kernels import conj, disj, neg, mkb, B
from symx.core import val_of, is_sym

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TABLE = json.load(open(os.path.join(HERE, "params.json")))
KERNELS = {"C08": {}}
WRONG = ["5", None, [5], (1, 2)]


def ends(b, env):
    return [eval(x, {}, dict(env)) if isinstance(x, str) else x for x in (b["lo"], b["hi"])]


def inside(x, b, env):
    if b is None:
        return True
    lo, hi = ends(b, env)
    cs = []
    if not isinstance(lo, float) or lo != float("-inf"):
        cs.append(x >= lo if b["closed"] else x > lo)
    if not isinstance(hi, float) or hi != float("inf"):
        cs.append(x <= hi if b["closed"] else x < hi)
    if "pred" in b:
        cs.append(eval(b["pred"], {}, {**env, "v": x}))
    return conj(*cs)


def span(b, env):
    lo, hi = (-5, 5) if b is None else [float(val_of(x)) for x in ends(b, env)]
    if "pred" in (b or {}):
        hi = 30
    lo, hi = (-50 if lo == float("-inf") else lo), (lo + 100 if hi == float("inf") and lo != float("-inf") else 100 if hi == float("inf") else hi)
    m = max(3, int((hi - lo) * 0.3))
    return lo - m, hi + m


def used(s):
    """other parameters this one's bound is stated in"""
    b = s["bound"]
    t = " ".join(x for x in b.values() if isinstance(x, str)) if isinstance(b, dict) else ""
    return {w for w in re.findall(r"[A-Za-z_]+", t) if w != "v"}


def entries(d):
    out = [(p,) for p in d]
    for p, s in d.items():
        out += [(p, q) for q in sorted(used(s))]
    return out


def body_of(cls):
    d = TABLE[cls]
    ent = entries(d)

    def body(k):
        # which parameters are given is a decision, their values are symbolic, the others keep their defaults
        given = ent[k.pick("parameters", range(len(ent)))]
        env = {p: s["default"] for p, s in d.items()}
        oks, asint = {}, {}
        tag = "+".join(given)
        for p in given:
            kind, b = d[p]["kind"], d[p]["bound"]
            if kind in ("str", "bool"):
                allowed = b if b is not None else []
                env[p] = v = k.pick("value of " + p, list(allowed) + ["nonsense", "", None, 7, 1 if kind == "bool" else "x"])
                oks[p] = any(v is a or (type(v) is str and v == a) for a in allowed)
            elif len(given) == 1 and k.flag("wrong type"):
                env[p] = k.pick("wrong", WRONG)
                oks[p] = False
            else:
                asint[p] = kind == "int" or (kind == "intfloat" and k.flag("as int"))
                lo, hi = span(b if kind != "intfloat" else b[0 if asint[p] else 1], env)
                env[p] = k.int("value of " + p, int(lo), int(hi)) if asint[p] else k.real("value of " + p, float(lo), float(hi))
        if not any(v is False for v in oks.values()):
            for p, s in d.items():
                if s["kind"] in ("int", "float", "intfloat") and (p in given or used(s) & set(given)):
                    oks[p] = inside(env[p], s["bound"] if s["kind"] != "intfloat" else s["bound"][0 if asint.get(p, type(env[p]) is int) else 1], env)
        ok = False if any(v is False for v in oks.values()) else conj(*oks.values())
        kw = {p: env[p] for p in given}
        what = f"{cls}({', '.join(f'{p}={val_of(v)!r}' for p, v in kw.items())})"
        try:
            o = harness.get_cls(cls)(**kw)
        except ValueError as e:
            k.check(f"{tag}: a legal value is refused", neg(ok), f"{what}: {str(e)[:120]}")
            return
        k.check(f"{tag}: an illegal value is accepted", ok, f"{what} is accepted")
        if not bool(val_of(ok)):
            return
        got = o.get_parameters()
        for p in given:
            if d[p]["attr"]:
                k.eq(f"{tag}: attribute {p}", getattr(o, p, "missing"), env[p], f"{what}.{p} is {val_of(getattr(o, p, 'missing'))!r}")
            if d[p]["param"]:
                k.eq(f"{tag}: parameter {p}", got.get(p, "missing"), env[p], f"{what}: get_parameters()[{p!r}] is {val_of(got.get(p, 'missing'))!r}")
        for p, s in d.items():
            if p not in given and s["param"]:
                k.check(f"{tag}: another parameter", got.get(p, "missing") == s["default"], f"{what}: get_parameters()[{p!r}] is {val_of(got.get(p, 'missing'))!r}, the default is {s['default']!r}")
    return body


for c in sorted(TABLE):
    KERNELS["C08"][c] = (body_of(c), {"budget": 30., "floor": 20., "max_paths": 1500, "path_s": 10})
