"""Writes params.json: the accepted range of every optimizer's hyper-parameters (run on the reviewed tree only).

The ranges are those stated to Validator by each constructor; the docstrings' ranges are compared by tools, the accepted ones are listed here.
"""
import inspect
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, "/repo")
import mealpy
from mealpy.utils.validator import Validator

O = mealpy.get_all_optimizers(verbose=False)
rec = []
KINDS = {"check_int": "int", "check_float": "float", "check_str": "str", "check_bool": "bool", "check_is_int_and_float": "intfloat"}
for n, kind in KINDS.items():
    f = getattr(Validator, n)

    def w(self, name, value, *a, f=f, kind=kind, **k):
        b = list(a) if kind == "intfloat" else (a[0] if a else k.get("bound"))
        if kind == "intfloat":
            b = [a[0] if a else k.get("bound_int"), a[1] if len(a) > 1 else k.get("bound_float")]
        rec.append((name, kind, b))
        return f(self, name, value, *a, **k)
    setattr(Validator, n, w)


def enc(b):
    return {"closed": type(b) is list, "lo": b[0], "hi": b[1]} if b is not None else None


# bounds stated in terms of other parameters: (class that states it, parameter) -> (which end, expression)
HALF, FIFTH = "pop_size // 2", "pop_size // 5"
REL = {("OriginalAPO", "n_pairs"): ("hi", HALF), ("OriginalBBO", "n_elites"): ("hi", HALF), ("OriginalBCO", "c_max"): ("lo", "c_min"), ("OriginalBMO", "pl"): ("hi", "pop_size - 1"),
       ("OriginalEOA", "n_best"): ("hi", HALF), ("OriginalIWO", "seed_max"): ("hi", HALF), ("OriginalCRO", "n_trials"): ("hi", HALF), ("OCRO", "restart_count"): ("hi", "epoch // 2"),
       ("OriginalMA", "max_local_gens"): ("hi", HALF), ("ImprovedBSO", "m_clusters"): ("hi", FIFTH), ("OriginalCHIO", "max_age"): ("hi", "1 + epoch // 5"),
       ("OriginalGSKA", "kg"): ("hi", "1 + epoch // 2"), ("OriginalICA", "empire_count"): ("hi", "2 + pop_size // 5"), ("OriginalILA", "n_models"): ("hi", HALF),
       ("DevSARO", "mu"): ("hi", "2 + pop_size // 2"), ("ETLBO", "elite_size"): ("hi", HALF), ("OriginalCEM", "n_best"): ("hi", HALF), ("SwarmHC", "neighbour_size"): ("hi", HALF),
       ("OriginalGRSA", "n_geometry"): ("hi", HALF), ("OriginalHGSO", "n_clusters"): ("hi", FIFTH), ("SwarmSA", "move_count"): ("hi", HALF), ("OriginalBSA", "ff"): ("hi", HALF),
       ("OriginalCOA", "n_coyotes"): ("hi", HALF), ("OriginalEHO", "n_clans"): ("hi", FIFTH), ("MLFA_GD", "m_females"): ("hi", HALF), ("ER_GWO", "a_final"): ("hi", "a_initial"),
       ("OriginalMSA", "n_best"): ("hi", HALF), ("OriginalMSA", "max_step_size"): ("hi", "epoch"), ("HI_WOA", "feedback_max"): ("hi", "2 + epoch // 2"), ("OriginalWCA", "nsr"): ("hi", HALF),
       ("ImprovedTLO", "n_teachers"): ("pred", "(v + 1) * (v + 1) <= pop_size")}

out = {}
for c in sorted(O):
    sig = inspect.signature(O[c].__init__)
    names = [p for p in sig.parameters if p not in ("self", "kwargs")]
    rec.clear()
    try:
        o = O[c]()
    except Exception as e:
        print("cannot construct", c, e)
        continue
    d = {}
    for name, kind, b in rec:
        name = {("MGTO", "p1"): "pp"}.get((c, name), name)      # named differently in the message
        if name not in names:
            continue
        e = {"kind": kind}
        if kind in ("int", "float"):
            e["bound"] = enc(b)
            for base in O[c].__mro__:
                r = REL.get((base.__name__, name))
                if r is not None and b is not None:
                    if r[0] == "pred":
                        e["bound"].update(hi=float("inf"), pred=r[1])
                    else:
                        e["bound"][r[0]] = r[1]
                    break
        elif kind == "intfloat":
            e["bound"] = [enc(x) for x in b]
        else:
            e["bound"] = list(b) if b is not None else None
        given = e["default"] = sig.parameters[name].default
        e["attr"] = hasattr(o, name) and getattr(o, name) == given
        e["param"] = name in o.parameters and o.parameters[name] == given
        if c == "OriginalSSpiderO" and name in ("fp_min", "fp_max"):
            e["attr"] = e["param"] = False       # the two are put in order
        d[name] = e
    for name in names:
        if name not in d:
            print(c, "unvalidated", name, sig.parameters[name].default)
    out[c] = d
bad = [(c, n, x["attr"], x["param"]) for c, d in out.items() for n, x in d.items() if not x["attr"] or not x["param"]]
print(len(out), sum(len(d) for d in out.values()), bad)
json.dump(out, open(os.path.join(HERE, "params.json"), "w"), indent=0, sort_keys=True)
