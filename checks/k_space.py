"""Decision variables and mixed problems: decode, encode, correct, generate, slicing (C11-C15)."""
import numpy as np
from symx import harness, npshim
from symx.core import is_sym, val_of
from .kernels import conj, disj, neg, imp, close, flat, Ctx

KERNELS = {"C11": {}, "C12": {}, "C13": {}, "C14": {}, "C15": {}}


def kernel(prop, name, **opts):
    def d(f):
        KERNELS[prop][name] = (f, opts)
        return f
    return d


TF = ["vstf_01", "vstf_02", "vstf_03", "vstf_04", "sstf_01", "sstf_02", "sstf_03", "sstf_04"]
CATS = [(1, 2), (3, 4), (5, 6)]


def V():
    import mealpy
    return mealpy


class Spec:
    """a variable, its legal raw values, and how to pick one"""

    def __init__(self, name, make, n, legal, raw=None, exact=True, scalar=False, transfer=False, values=None, each_value=None, span=None):
        self.name, self.make, self.n, self.legal, self.raw, self.exact, self.transfer, self.values = name, make, n, legal, raw, exact, transfer, values
        self.each_value, self.span = each_value, span


def is_int(v):
    return conj(v == v // 1) if not is_sym(v) else True


def in_list(v, xs):
    return disj(*[(type(v) is type(x) or isinstance(x, str) or isinstance(x, (int, float))) and v == x for x in xs]) if not is_sym(v) else disj(*[v == x for x in xs])


def eqv(a, b):
    """equality of two raw scalar values"""
    if isinstance(a, np.ndarray) and a.ndim == 0:
        a = a.item()
    if isinstance(b, np.ndarray) and b.ndim == 0:
        b = b.item()
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        return isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b) and all(x == y for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) in (str, np.str_) and type(b) in (str, np.str_) and str(a) == str(b) if isinstance(a, str) or isinstance(b, str) else a is b
    return close(a, b)


def seq_legal(sets):
    def f(out):
        return len(flat_raw(out)) == 1 and any(eqv(list(out[0]), list(s)) for s in sets)
    return f


def seq_of(kind, sets):
    legal = seq_legal(sets)
    return lambda out: legal(out) and type(out[0]) is kind


def flat_raw(out):
    if isinstance(out, np.ndarray):
        return harness.scal(out)
    return list(out)


def each(n, ok):
    def f(out):
        xs = flat_raw(out)
        if len(xs) != n:
            return False
        return conj(*[ok(i, x) for i, x in enumerate(xs)])
    return f


def box(lb, ub):
    return lambda i, x: conj(x >= lb[i], x <= ub[i])


def ibox(lb, ub):
    return lambda i, x: conj(*([x >= lb[i], x <= ub[i]] + ([] if is_sym(x) and type(x).__name__ == "SymInt" else [val_of(x) == int(val_of(x))])))


def permutation_of(vals):
    def f(out):
        xs = flat_raw(out)
        if len(xs) != len(vals):
            return False
        return conj(*[disj(*[eqv(x, v) for x in xs]) for v in vals])
    return f


STR1 = ["b", "a", "c"]
STR2 = (("x", "y"), ("q", "p", "r"))
DUP = ["a", "b", "a"]
CAT1 = [3, "a", None, 2.5]
SEQ = [(1, 2), (3,), (7, 7, 7)]
PERM3 = (10, 5, 7)
PERM4 = ("d", "b", "a", "c")
PERMX = [3, "a", 2.5, "3"]


def pick_raw(sets):
    return lambda k, tag="": [k.pick(f"raw{tag}{i}", list(s)) for i, s in enumerate(sets)]


def pick_perm(vals):
    def f(k, tag=""):
        left, out = list(vals), []
        while left:
            j = k.pick(f"perm{tag}{len(out)}", list(range(len(left))))
            out.append(left.pop(j))
        return out
    return f


def reals_in(lb, ub):
    return lambda k, tag="": [k.real(f"raw{tag}{i}", l, u) for i, (l, u) in enumerate(zip(lb, ub))]


def ints_in(lb, ub):
    return lambda k, tag="": [k.int(f"raw{tag}{i}", l, u) for i, (l, u) in enumerate(zip(lb, ub))]


def specs():
    m = V()
    out = [
        Spec("float", lambda: m.FloatVar(lb=-3., ub=5.), 1, each(1, box((-3.,), (5.,))), reals_in((-3.,), (5.,)), span=[(-3., 5.)]),
        Spec("float2", lambda: m.FloatVar(lb=(-3., 1.), ub=(5., 4.)), 2, each(2, box((-3., 1.), (5., 4.))), reals_in((-3., 1.), (5., 4.)), span=[(-3., 5.), (1., 4.)]),
        Spec("integer", lambda: m.IntegerVar(lb=-2, ub=2), 1, each(1, ibox((-2,), (2,))), ints_in((-2,), (2,)), values=list(range(-2, 3))),
        Spec("integer negative", lambda: m.IntegerVar(lb=-7, ub=-5), 1, each(1, ibox((-7,), (-5,))), ints_in((-7,), (-5,)), values=[-7, -6, -5]),
        Spec("integer2", lambda: m.IntegerVar(lb=(-4, 0), ub=(-1, 3)), 2, each(2, ibox((-4, 0), (-1, 3))), ints_in((-4, 0), (-1, 3)), each_value=[range(-4, 0), range(0, 4)]),
        Spec("large integers", lambda: m.IntegerVar(lb=(-10 ** 10, 3), ub=(10 ** 10, 10 ** 9)), 2, each(2, ibox((-10 ** 10, 3), (10 ** 10, 10 ** 9))), ints_in((-10 ** 10, 3), (10 ** 10, 10 ** 9))),
        Spec("floats far from zero", lambda: m.FloatVar(lb=(1e6, -1e-3), ub=(1e6 + 1, 1e-3)), 2, each(2, box((1e6, -1e-3), (1e6 + 1, 1e-3))), reals_in((1e6, -1e-3), (1e6 + 1, 1e-3)), span=[(1e6, 1e6 + 1), (-1e-3, 1e-3)]),
        Spec("string", lambda: m.StringVar(valid_sets=STR1), 1, each(1, lambda i, x: in_list(x, STR1)), pick_raw([STR1]), values=STR1),
        Spec("string2", lambda: m.StringVar(valid_sets=STR2), 2, each(2, lambda i, x: in_list(x, STR2[i])), pick_raw(STR2), each_value=STR2),
        Spec("string with repeated labels", lambda: m.StringVar(valid_sets=DUP), 1, each(1, lambda i, x: in_list(x, DUP)), pick_raw([["a", "b"]]), values=["a", "b"]),
        Spec("categorical", lambda: m.CategoricalVar(valid_sets=CAT1), 1, each(1, lambda i, x: any(eqv(x, v) for v in CAT1)), pick_raw([CAT1]), values=CAT1),
        Spec("categorical of tuples", lambda: m.CategoricalVar(valid_sets=(tuple(CATS), (True, False))), 2,
             each(2, lambda i, x: any(eqv(x, v) for v in (CATS, (True, False))[i])), pick_raw((CATS, (True, False))), each_value=(CATS, (True, False))),
        Spec("sequence", lambda: m.SequenceVar(valid_sets=SEQ, return_type=list), 1, seq_legal(SEQ), lambda k, tag="": k.pick("raw" + tag, SEQ), values=SEQ),
        Spec("sequence of lists", lambda: m.SequenceVar(valid_sets=[list(x) for x in SEQ], return_type=tuple), 1, seq_legal(SEQ), lambda k, tag="": k.pick("raw" + tag, SEQ), values=SEQ),
        Spec("permutation3", lambda: m.PermutationVar(valid_set=PERM3), 3, permutation_of(PERM3), pick_perm(PERM3), each_value=[PERM3] * 3),
        Spec("permutation4", lambda: m.PermutationVar(valid_set=PERM4), 4, permutation_of(PERM4), pick_perm(PERM4), each_value=[PERM4] * 4),
        Spec("permutation of mixed kinds", lambda: m.PermutationVar(valid_set=PERMX), 4, permutation_of(PERMX), pick_perm(PERMX), each_value=[PERMX] * 4),
        Spec("permutation of tuples", lambda: m.PermutationVar(valid_set=CATS), 3, permutation_of(CATS), pick_perm(CATS), each_value=[CATS] * 3),
        Spec("binary", lambda: m.BinaryVar(n_vars=3), 3, each(3, ibox((0,) * 3, (1,) * 3)), ints_in((0,) * 3, (1,) * 3), each_value=[(0, 1)] * 3),
        Spec("boolean", lambda: m.BoolVar(n_vars=2), 2, each(2, lambda i, x: disj(x == True, x == False)), lambda k, tag="": [k.pick(f"raw{tag}{i}", (True, False)) for i in range(2)], each_value=[(False, True)] * 2),
    ]
    for tf in TF:
        out.append(Spec(f"transfer binary {tf}", lambda tf=tf: m.TransferBinaryVar(n_vars=2, tf_func=tf, lb=-8., ub=8.), 2, each(2, ibox((0,) * 2, (1,) * 2)),
                        ints_in((0,) * 2, (1,) * 2), transfer=True, each_value=[(0, 1)] * 2))
    out.append(Spec("transfer binary never empty", lambda: m.TransferBinaryVar(n_vars=2, tf_func="vstf_01", all_zeros=False), 2,
                    lambda o: conj(each(2, ibox((0,) * 2, (1,) * 2))(o), flat_raw(o)[0] + flat_raw(o)[1] >= 1),
                    lambda k, tag="": [list(t) for t in [k.pick("raw" + tag, [(0, 1), (1, 0), (1, 1)])]][0], transfer=True, each_value=[(0, 1)] * 2))
    out.append(Spec("transfer binary never empty, one variable", lambda: m.TransferBinaryVar(n_vars=1, tf_func="sstf_01", all_zeros=False), 1,
                    each(1, ibox((1,), (1,))), lambda k, tag="": [1], transfer=True, values=[1]))
    for tf in ("vstf_02", "sstf_02"):
        out.append(Spec(f"transfer bool {tf}", lambda tf=tf: m.TransferBoolVar(n_vars=2, tf_func=tf), 2, each(2, lambda i, x: disj(x == True, x == False)),
                        lambda k, tag="": [k.pick(f"raw{tag}{i}", (True, False)) for i in range(2)], transfer=True, each_value=[(False, True)] * 2))
    return out


def seeded(var):
    var.seed = 3
    return var


def add(sp):
    @kernel("C11", sp.name)
    def decode(k):
        var = seeded(sp.make())
        x = k.vec("x", sp.n, -12., 12.)
        out = var.decode(x)
        k.check("decoded value not legal", sp.legal(out), f"{sp.name}: decoding {harness.vals(harness.scal(x))} gave {out!r}")

    @kernel("C12", sp.name)
    def roundtrip(k):
        var = seeded(sp.make())
        raw = sp.raw(k)
        enc = var.encode(raw)
        k.check("encoded size", len(flat(enc)) == sp.n, f"{len(flat(enc))} numbers for {sp.n} variables")
        out = flat_raw(var.decode(enc))
        want = [raw] if sp.name.startswith("sequence") else flat_raw(raw)
        k.check("decode does not give back the encoded value", len(out) == len(want) and conj(*[eqv(a, b) for a, b in zip(out, want)]),
                f"{sp.name}: {raw!r} encoded as {harness.vals(harness.scal(enc))} and decoded as {out!r}")

    @kernel("C13", sp.name)
    def correct(k):
        var = seeded(sp.make())
        xs = k.reals("x", sp.n, -12., 12.)
        x = k.arr(xs)
        once = var.correct(x)
        k.check("correcting changes the given vector", conj(*[a == b for a, b in zip(harness.scal(x), xs)]), "the input vector was modified")
        o = flat(once)
        k.check("corrected size", len(o) == sp.n)
        if not sp.transfer:
            lb, ub = flat(var.lb), flat(var.ub)
            k.check("corrected value outside the box", conj(*[conj(a >= l, a <= u) for a, l, u in zip(o, lb, ub)]), f"{sp.name}: {harness.vals(xs)} corrected to {o}")
        else:
            k.check("corrected value not binary", conj(*[disj(a == 0, a == 1) for a in o]))
        keep = list(o)
        twice = var.correct(once)
        k.check("correcting twice differs from correcting once", close(flat(twice), keep), f"{sp.name}: {harness.vals(xs)} -> {keep} -> {flat(twice)}")

    @kernel("C13", sp.name + " (legal points)")
    def legal_point(k):
        var = seeded(sp.make())
        raw = sp.raw(k)
        enc = var.encode(raw)
        e = list(flat(enc))
        k.check("correcting changes a legal point", close(flat(var.correct(enc)), e), f"{sp.name}: {e} corrected to {flat(var.correct(enc))}")

    @kernel("C13", sp.name + " (decode of a corrected point)")
    def same_decode(k):
        var = seeded(sp.make())
        x = k.vec("x", sp.n, -12., 12.)
        c = var.correct(x)
        a, b = flat_raw(var.decode(c)), flat_raw(var.decode(c))
        k.check("a corrected point decodes to two different values", len(a) == len(b) and conj(*[eqv(p, q) for p, q in zip(a, b)]), f"{sp.name}: {a!r} and {b!r}")
        if sp.transfer:
            k.check("a corrected binary point does not decode to itself", conj(*[eqv(p, q) for p, q in zip(a, flat(c))]), f"{sp.name}: {flat(c)} decoded as {a!r}")

    @kernel("C14", sp.name)
    def generate(k):
        var = seeded(sp.make())
        raw = var.generate()
        r = [raw] if sp.name.startswith("sequence") else raw
        k.check("generated value not legal", sp.legal(r), f"{sp.name}: generated {raw!r}")
        e = list(flat(var.encode(raw)))
        k.check("generated value does not encode into the box", len(e) == sp.n and conj(*[conj(a >= l, a <= u) for a, l, u in zip(e, flat(var.lb), flat(var.ub))]),
                f"{sp.name}: {raw!r} encoded as {e}")
        back = flat_raw(var.decode(k.arr(e)))
        want = flat_raw(r)
        k.check("generated value does not survive encoding", len(back) == len(want) and conj(*[eqv(a, b) for a, b in zip(back, want)]), f"{sp.name}: {raw!r} decoded as {back!r}")
        if sp.values is not None:
            for v in sp.values:
                k.reach(f"{v!r} is never generated", eqv(flat_raw(r)[0], v))
        got = flat_raw(r)
        for i, vs in enumerate(sp.each_value or ()):
            for v in vs:
                k.reach(f"{v!r} is never generated for component {i}", eqv(got[i], v))
        for i, (lo, hi) in enumerate(sp.span or ()):
            k.reach(f"the lowest tenth of the range is never generated for component {i}", got[i] <= lo + 0.1 * (hi - lo))
            k.reach(f"the highest tenth of the range is never generated for component {i}", got[i] >= hi - 0.1 * (hi - lo))


# ---- bounds as inputs

@kernel("C11", "the kind of a sequence")
def decode_seq_kind(k):
    kind = k.pick("return_type", (list, tuple))
    given = k.pick("given as", (list, tuple))
    var = seeded(V().SequenceVar(valid_sets=given(given(x) for x in SEQ), return_type=kind))
    out = var.decode(k.vec("x", 1, -12., 12.))
    k.check("decoded value not of the declared kind", seq_of(kind, SEQ)(out), f"{kind.__name__} asked for, got {out!r}")


@kernel("C11", "float, any bounds")
def decode_float_bounds(k):
    m = V()
    lb = k.reals("lb", 2, -1000., 1000.)
    ub = [l + w for l, w in zip(lb, k.reals("width", 2, 0., 1000.))]
    x = k.vec("x", 2, -5000., 5000.)
    var = m.FloatVar(lb=tuple(lb), ub=tuple(ub))
    out = flat_raw(var.decode(x))
    k.check("decoded value not legal", len(out) == 2 and conj(*[conj(o >= l, o <= u) for o, l, u in zip(out, lb, ub)]))
    for o, v, l, u in zip(out, harness.scal(x), lb, ub):
        k.check("a point inside the bounds is changed", imp(conj(v >= l, v <= u), close(o, v)))


@kernel("C11", "integer, any bounds")
def decode_int_bounds(k):
    m = V()
    lb = k.int("lb", -1000, 1000)
    ub = lb + k.int("width", 0, 1000)
    x = k.vec("x", 1, -5000., 5000.)
    var = m.IntegerVar(lb=lb, ub=ub)
    out = flat_raw(var.decode(x))
    v = harness.scal(x)[0]
    k.check("decoded value not legal", len(out) == 1 and conj(out[0] >= lb, out[0] <= ub), f"bounds [{lb!r}, {ub!r}], {harness.vals(harness.scal(x))} decoded as {out}")
    k.check("not the nearest integer", imp(conj(v >= lb, v <= ub), conj(out[0] - v <= 0.5, v - out[0] <= 0.5)))


@kernel("C14", "integer bounds vectors")
def generate_int_vec(k):
    m = V()
    lb, ub = k.pick("bounds", [((-9, -3, 0), (-5, -1, 0)), ((-4, 2, 5), (-3, 2, 9)), ((-1, 0, -2), (0, 1, -1))])
    var = seeded(m.IntegerVar(lb=lb, ub=ub))
    out = flat_raw(var.generate())
    k.check("generated value not legal", len(out) == 3 and conj(*[conj(o >= l, o <= u) for o, l, u in zip(out, lb, ub)]), f"bounds {lb} {ub}: {out}")
    for i in range(3):
        k.reach(f"upper bound {ub[i]} of {lb}..{ub} never generated" if ub == (-5, -1, 0) else f"upper bound of variable {i} never generated", out[i] == ub[i])


# ---- mixed problems

def mixed(k):
    m = V()
    vs = [m.FloatVar(lb=(-3., 1.), ub=(5., 4.), name="f"), m.IntegerVar(lb=-2, ub=2, name="i"), m.StringVar(valid_sets=STR1, name="s"), m.PermutationVar(valid_set=PERM3, name="p"),
          m.BinaryVar(n_vars=2, name="b"), m.BoolVar(n_vars=1, name="o"), m.CategoricalVar(valid_sets=(("u", 1), (None, 2.5)), name="c"), m.SequenceVar(valid_sets=SEQ, name="q"),
          m.IntegerVar(lb=(0, 10), ub=(1, 12), name="j")]
    sizes = [2, 1, 1, 3, 2, 1, 2, 1, 2]
    sub = k.pick("subset", [(0, 1, 2), (3, 0), (4, 1, 5), (6, 7, 8), (1, 3, 2), (8, 6, 0), (5, 7, 4)])
    vs, sizes = [vs[i] for i in sub], [sizes[i] for i in sub]

    class P(m.Problem):
        def obj_func(self, x):
            return 0.
    pb = P(bounds=vs, minmax="min", log_to=None)
    return pb, vs, sizes


def same_raw(a, b):
    a = [a] if not isinstance(a, (list, tuple, np.ndarray)) else a
    b = [b] if not isinstance(b, (list, tuple, np.ndarray)) else b
    a, b = flat_raw(a), flat_raw(b)
    return len(a) == len(b) and conj(*[eqv(x, y) for x, y in zip(a, b)])


@kernel("C15", "decode every variable from its own slice", budget=60.0)
def mixed_decode(k):
    pb, vs, sizes = mixed(k)
    n = sum(sizes)
    k.check("number of dimensions", pb.n_dims == n and len(pb.lb) == n and len(pb.ub) == n)
    x = k.vec("x", n, -4., 13.)
    got = pb.decode_solution(x)
    k.check("one value per variable", list(got.keys()) == [v.name for v in vs])
    pos = 0
    for v, s in zip(vs, sizes):
        want = v.decode(x[pos:pos + s])
        g = got[v.name]
        k.check(f"value of another slice", same_raw(g, want[0] if s == 1 else want), f"variable {v.name}: {g!r} instead of {want!r}")
        pos += s


@kernel("C15", "correct every variable in its own slice", budget=60.0)
def mixed_correct(k):
    pb, vs, sizes = mixed(k)
    n = sum(sizes)
    x = k.vec("x", n, -4., 13.)
    got = flat(pb.correct_solution(x))
    k.check("corrected size", len(got) == n)
    pos = 0
    for v, s in zip(vs, sizes):
        want = flat(v.correct(x[pos:pos + s]))
        k.check("value of another slice", close(got[pos:pos + s], want), f"variable {v.name}: {got[pos:pos + s]} instead of {want}")
        lb, ub = flat(v.lb), flat(v.ub)
        k.check("bounds of another variable", conj(close(flat(pb.lb)[pos:pos + s], lb), close(flat(pb.ub)[pos:pos + s], ub)))
        pos += s


@kernel("C15", "generated solutions survive encoding", budget=60.0)
def mixed_generate(k):
    pb, vs, sizes = mixed(k)
    pb.set_seed(5)
    x = pb.generate_solution(encoded=True)
    pb.set_seed(5)
    raw = pb.generate_solution(encoded=False)
    k.check("encoded size", len(flat(x)) == sum(sizes) and len(raw) == len(vs))
    e = pb.encode_solution(raw)
    pos = 0
    for v, s, r in zip(vs, sizes, raw):
        k.check("value of another slice", close(flat(e)[pos:pos + s], flat(v.encode(r))), f"variable {v.name}")
        pos += s
    got = pb.decode_solution(e)
    for v, s, r in zip(vs, sizes, raw):
        want = r if s > 1 or v.name == "q" else flat_raw(r)[0]
        k.check("decoded solution differs from the generated one", same_raw(got[v.name], want), f"variable {v.name}: {got[v.name]!r} instead of {want!r}")


@kernel("C14", "float bounds vectors")
def generate_float_vec(k):
    m = V()
    lb = k.reals("lb", 2, -1000., 1000.)
    ub = [l + w for l, w in zip(lb, k.reals("width", 2, 0., 1000.))]
    var = seeded(m.FloatVar(lb=tuple(lb), ub=tuple(ub)))
    out = flat_raw(var.generate())
    k.check("generated value not legal", len(out) == 2 and conj(*[conj(o >= l, o <= u) for o, l, u in zip(out, lb, ub)]), f"bounds {lb} {ub}: {out}")


def within(x, a, b):
    return conj(x >= a - 1e-9, x <= b + 1e-9)


@kernel("C15", "the search box covers every legal value and nothing is lost at its ends")
def declared_box(k):
    """the box an optimizer searches: the encoded legal values are exactly the ones it covers"""
    m = V()
    lb = k.reals("lb", 2, -100., 100.)
    ub = [l + w for l, w in zip(lb, k.reals("width", 2, 0., 100.))]
    ilb = k.int("ilb", -50, 50)
    iub = ilb + k.int("iwidth", 0, 50)
    vs = [m.FloatVar(lb=tuple(lb), ub=tuple(ub), name="f"), m.IntegerVar(lb=ilb, ub=iub, name="i"), m.StringVar(valid_sets=STR1, name="s"), m.PermutationVar(valid_set=PERM3, name="p"),
          m.BinaryVar(n_vars=2, name="b"), m.BoolVar(n_vars=1, name="o"), m.TransferBinaryVar(n_vars=2, tf_func="sstf_02", lb=-6., ub=7., name="t"), m.TransferBoolVar(n_vars=1, lb=-5., ub=4., name="u")]

    class P(m.Problem):
        def obj_func(self, x):
            return 0.
    pb = P(bounds=vs, minmax="min", log_to=None)
    L, U = flat(pb.lb), flat(pb.ub)
    k.check("number of dimensions", len(L) == 13 and len(U) == 13 and pb.n_dims == 13)
    k.check("float variable: box is not the declared bounds", conj(close(L[:2], lb), close(U[:2], ub)), f"{L[:2]} {U[:2]} instead of {lb} {ub}")
    k.check("integer variable: box does not cover the declared range", conj(within(L[2], ilb - 0.5, ilb), within(U[2], iub, iub + 0.5)), f"{L[2]} {U[2]} for {ilb}..{iub}")
    for j, (n, nm) in {3: (3, "string"), 4: (3, "permutation"), 5: (3, "permutation"), 6: (3, "permutation"), 7: (2, "binary"), 8: (2, "binary"), 9: (2, "boolean")}.items():
        k.check(f"{nm} variable: box does not cover exactly its values", conj(within(L[j], -0.5, 0.), within(U[j], n - 1, n)), f"[{L[j]}, {U[j]}] for {n} values")
    k.check("transfer variable: box is not the declared bounds", conj(close(L[10:], [-6., -6., -5.]), close(U[10:], [7., 7., 4.])),
            f"{L[10:]} {U[10:]}")


for _s in specs():
    add(_s)
