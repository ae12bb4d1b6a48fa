"""C14: anything that acts like numbers gives the numeric answer."""
import math
import operator
import sqlite3
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from pbt import gen, vec
from pbt.checks.c07 import value, whole
from pbt.core import Violation, expect, fail, sub, sut, sutblock


# ------------------------------------------------------------------ an expression object with nothing but operators
class Sym:
    """Arithmetic operators only: no truth value, no order, no length, no float."""

    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, f):
        self.f = f

    def _no(self, *a, **k):
        raise TypeError("a symbolic value has no concrete value yet")

    __bool__ = __float__ = __int__ = __len__ = __iter__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __getitem__ = __contains__ = __index__ = _no


def lift(v):
    return v.f if isinstance(v, Sym) else (lambda e: v)


def _bind(name, op):
    def fwd(a, b):
        return type(a)(lambda e: op(a.f(e), lift(b)(e)))

    def rev(a, b):
        return type(a)(lambda e: op(lift(b)(e), a.f(e)))

    setattr(Sym, "__%s__" % name, fwd)
    setattr(Sym, "__r%s__" % name, rev)


for _n, _o in dict(add=operator.add, sub=operator.sub, mul=operator.mul, truediv=operator.truediv, pow=operator.pow).items():
    _bind(_n, _o)
Sym.__neg__ = lambda a: type(a)(lambda e: -a.f(e))
Sym.__pos__ = lambda a: type(a)(lambda e: a.f(e))


class Elem(Sym):
    """the same, as the element of a numpy object array"""


Elem.__array_ufunc__ = None
del Elem.__array_ufunc__


# ------------------------------------------------------------------ backends: make(name) -> object, evaluate(object, valuation)
def ident(n):
    return "c_" + "".join("U" + ch if ch.isupper() else ch for ch in n).replace(".", "_")  # SQL ignores case


def ev_sym(x, e):
    return x.f(e) if isinstance(x, Sym) else x


def mk_sympy(n, v):
    import sympy

    return sympy.Symbol(ident(n), real=True)


def ev_sympy(x, e):
    if not hasattr(x, "subs"):
        return x
    import sympy

    return float(x.subs({sympy.Symbol(ident(k), real=True): sympy.Float(v, 40) if isinstance(v, float) else sympy.Integer(v) for k, v in e.items()}).evalf(40))


def mk_pypika(n, v):
    from pypika import Field

    return Field(ident(n))


def ev_pypika(x, e):
    if not hasattr(x, "get_sql"):
        return x
    con = sqlite3.connect(":memory:")
    for nm in ("POW", "POWER"):
        con.create_function(nm, 2, lambda a, b: float(a) ** float(b))
    con.create_function("SQRT", 1, lambda a: math.sqrt(a))
    cols = sorted(e)
    con.execute("create table t (%s)" % ", ".join('"%s" REAL' % ident(c) for c in cols))
    con.execute("insert into t values (%s)" % ", ".join("?" * len(cols)), [float(e[c]) for c in cols])
    sql = x.get_sql(quote_char='"').replace("--", "- -")  # SQL reads two minus signs as a comment
    try:
        (r,) = con.execute("select %s from t" % sql).fetchone()
    except sqlite3.Error as err:
        raise Violation("generated SQL %s does not run: %s" % (sql, err))
    con.close()
    return r


NOFN = {  # arguments that go through a replaceable function, whose default needs real numbers (supplying them is C15)
    "model:uniform_pareto-Pareto": ["x_m", "x_max"], "model:pareto_gamma-Gamma": ["x_m"],
    "model:von_mises_known_concentration": ["a", "b", "cos_total", "sin_total", "kappa"],
    "curve:gamma": ["p", "alpha", "beta"], "curve:gamma_known_rate": ["a", "alpha", "beta"], "curve:beta": ["p", "q", "alpha", "beta"],
    "curve:von_mises_known_concentration": ["a", "b", "mu"], "curve:von_mises_known_direction": ["kappa"],
}


def agree(x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    return bool(np.all(np.isclose(x, y, rtol=1e-9, atol=1e-11) | ((x != x) & (y != y))))


@st.composite
def opcase(draw, backend):
    o = draw(st.sampled_from(OPS))
    free = [a for a in sorted(o.dom) if a not in NOFN.get(o.name, [])]
    mask = draw(st.integers(1, 2 ** len(free) - 1)) if free else 0
    sym = [a for i, a in enumerate(free) if mask >> i & 1]
    vals = [{a: draw(value(o.dom[a])) for a in sorted(o.dom)} for _ in range(2)]
    num = draw(st.sampled_from(["raw", "raw", "int", "npfloat", "npint", "array"] if backend == "sym" else ["raw", "raw", "int"]))
    if num in ("int", "npint"):  # whole numbers inside the real domains as well
        vals[0] = {a: draw(whole(o.dom[a])) if len(o.dom[a]) == 2 and draw(st.booleans()) else v for a, v in vals[0].items()}
    return {"op": o.name, "sym": sym, "vals": vals, "num": num}


OPS = [o for o in vec.OPS if [a for a in o.dom if a not in NOFN.get(o.name, [])]]


def present(v, kind):
    if kind == "array":
        return np.array([v, v])
    return gen.present(v, kind)


def symbolic(backend, make, evaluate):
    def check(c, rec):
        o = vec.BY_NAME[c["op"]]
        args = {a: make(a, None) if a in c["sym"] else present(c["vals"][0][a], c["num"]) for a in o.dom}
        got = sut(o.fn, args)
        rec.label(o.name.split(":")[0], "all symbolic" if len(c["sym"]) == len(o.dom) else "mixed")
        for e in c["vals"]:
            full = {a: e[a] if a in c["sym"] else c["vals"][0][a] for a in o.dom}
            want = sut(o.fn, full)
            for f in o.fields:
                with sutblock("evaluating %s.%s" % (o.name, f)):
                    g = evaluate(getattr(got, f), {a: e[a] for a in c["sym"]})
                expect(agree(g, getattr(want, f)), "%s with %s symbolic (%s): %s is %r at %r, numerically %r", o.name, c["sym"], backend, f, g, full, getattr(want, f))
        rec.nontrivial()

    return check


sub("C14", "operator-object", opcase("sym"), quick=2500, thorough=60000, rule="always", shards=2)(symbolic("operator object", lambda n, v: Sym(lambda e: e[n]), ev_sym))
sub("C14", "sql-builder", opcase("pypika"), quick=1500, thorough=30000, rule="always", shards=2)(symbolic("pypika", mk_pypika, ev_pypika))
sub("C14", "computer-algebra", opcase("sympy"), quick=500, thorough=10000, rule="always", shards=2)(symbolic("sympy", mk_sympy, ev_sympy))


# ------------------------------------------------------------------ exact fractions
@st.composite
def fraccase(draw):
    o = draw(st.sampled_from(OPS))
    free = [a for a in sorted(o.dom) if a not in NOFN.get(o.name, [])]
    return {"op": o.name, "sym": [a for a in free if draw(st.integers(0, 3))],
            "vals": {a: draw(value(o.dom[a])) for a in sorted(o.dom)}, "den": draw(st.sampled_from([1, 3, 7, 64])), "arr": draw(st.booleans())}


def frac(v, dom, den):
    if len(dom) > 2:
        return Fraction(int(v))
    f = Fraction(v).limit_denominator(10**4) + Fraction(0, den)
    lo, hi = Fraction(dom[0]), Fraction(dom[1])
    f = Fraction(round(f * den), den) if den > 1 else f
    return min(max(f, lo), hi)


# results that involve only sums, products and quotients of the inputs stay exact
EXACT = {
    "model:binomial_beta-Beta", "model:bernoulli_beta-Beta", "model:negative_binomial_beta-Beta", "model:geometric_beta-1", "model:geometric_beta-0",
    "model:poisson_gamma-Gamma", "model:exponential_gamma-Gamma", "model:gamma_known_shape-Gamma", "model:inverse_gamma_known_rate-Gamma",
    "model:weibull_inverse_gamma_known_shape-InverseGamma", "pred:poisson_gamma_predictive-Gamma", "model:gamma", "model:gamma_known_rate",
    "model:beta", "model:von_mises_known_direction", "mul:Gamma", "mul:NegativeBinomial", "mul:Poisson", "add:Poisson",
    "ctor:Beta.from_mean", "ctor:Beta.from_successes_and_failures", "ctor:Gamma.from_occurrences_in_intervals",
}


@sub("C14", "fractions", fraccase(), quick=1200, thorough=30000, rule="at least one fraction")
def fractions(c, rec):
    o = vec.BY_NAME[c["op"]]
    fr = {a: frac(c["vals"][a], o.dom[a], c["den"]) if a in c["sym"] else c["vals"][a] for a in o.dom}
    want = sut(o.fn, {a: (int(v) if len(o.dom[a]) > 2 else float(v)) for a, v in fr.items()})
    args = dict(fr)
    if c["arr"]:
        args = {a: np.array([v, v], dtype=object) if a in c["sym"] else v for a, v in fr.items()}
    got = sut(o.fn, args)
    for f in o.fields:
        g = getattr(got, f)
        expect(agree(np.asarray(g, dtype=object).astype(float), getattr(want, f)), "%s: %s = %r for fractions %r, numerically %r", o.name, f, g, fr, getattr(want, f))
        if o.name in EXACT and len(c["sym"]) == len(o.dom):
            x = g if not c["arr"] else (g.ravel()[0] if isinstance(g, np.ndarray) else g)
            expect(isinstance(x, (Fraction, int)), "%s: %s of exact fractions is the inexact %r", o.name, f, x)
    rec.nontrivial(bool(c["sym"]))
    rec.label(o.name.split(":")[0], "object array" if c["arr"] else "scalar")


# ------------------------------------------------------------------ object arrays of expressions
@sub("C14", "object-array", opcase("elem"), quick=600, thorough=15000, rule="always")
def objarr(c, rec):
    o = vec.BY_NAME[c["op"]]
    # an array of trial counts sets the upper plotting bound to its maximum, which needs ordered elements
    c["sym"] = [a for a in c["sym"] if not (a in ("n", "r", "N") and ("binomial_beta_predictive" in o.name or "hypergeometric" in o.name))]
    args = {a: np.array([Elem(lambda e, a=a: e[0][a]), Elem(lambda e, a=a: e[1][a])], dtype=object) if a in c["sym"] else c["vals"][0][a] for a in o.dom}
    got = sut(o.fn, args)
    for i, e in enumerate(c["vals"]):
        full = {a: e[a] if a in c["sym"] else c["vals"][0][a] for a in o.dom}
        want = sut(o.fn, full)
        for f in o.fields:
            g = getattr(got, f)
            g = g[i] if isinstance(g, np.ndarray) and g.ndim else g
            with sutblock("evaluating %s.%s" % (o.name, f)):
                g = ev_sym(g, c["vals"])
            expect(agree(g, getattr(want, f)), "%s with object arrays %s: element %d of %s is %r at %r, numerically %r", o.name, c["sym"], i, f, g, full, getattr(want, f))
    rec.nontrivial()


# ------------------------------------------------------------------ columns of data frames and labelled arrays
@st.composite
def colcase(draw):
    o = draw(st.sampled_from(vec.OPS))
    names = sorted(o.dom)
    mask = draw(st.integers(1, 2 ** len(names) - 1))
    n = draw(st.integers(1, 4))
    return {"op": o.name, "sym": [a for i, a in enumerate(names) if mask >> i & 1], "vals": [{a: draw(value(o.dom[a])) for a in names} for _ in range(n)],
            "index": draw(st.sampled_from(["range", "strings", "dates", "repeated"])), "backend": draw(st.sampled_from(["pandas", "pandas", "xarray", "xarray2"]))}


@sub("C14", "columns", colcase(), quick=700, thorough=15000, rule="more than one row")
def columns(c, rec):
    import pandas as pd
    import xarray as xr

    o, n = vec.BY_NAME[c["op"]], len(c["vals"])
    idx = {"range": list(range(n)), "strings": list("abcd")[:n], "dates": pd.date_range("2024-01-01", periods=n), "repeated": [7] * n}[c["index"]]
    args, dims = {}, {}
    df = pd.DataFrame({a: [v[a] for v in c["vals"]] for a in c["sym"]}, index=idx)
    two = c["backend"] == "xarray2" and len(c["sym"]) > 1
    for k, a in enumerate(c["sym"]):
        if c["backend"] == "pandas":
            args[a] = df[a]
        else:
            dims[a] = "h" if two and k % 2 else "g"
            args[a] = xr.DataArray([v[a] for v in c["vals"]], dims=dims[a])
    for a in o.dom:
        args.setdefault(a, c["vals"][0][a])
    got = sut(o.fn, args)
    grid = [(i, j) for i in range(n) for j in (range(n) if two else [i])]
    for i, j in grid:
        full = {a: (c["vals"][j if dims.get(a) == "h" else i] if a in c["sym"] else c["vals"][0])[a] for a in o.dom}
        want = sut(o.fn, full)
        for f in o.fields:
            g = getattr(got, f)
            if isinstance(g, pd.Series):
                expect(len(g) == n and list(g.index) == list(df.index), "%s: %s has index %r, the columns %r", o.name, f, list(g.index), list(df.index))
                g = g.iloc[i]
            elif isinstance(g, xr.DataArray):
                g = float(g.isel({d: (j if d == "h" else i) for d in g.dims}))
            elif isinstance(g, np.ndarray) and g.ndim:
                g = g[i] if not two else g
            expect(agree(g, getattr(want, f)), "%s with %s columns %s: %s of row %d is %r, numerically %r", o.name, c["backend"], c["sym"], f, i, g, getattr(want, f))
    rec.nontrivial(n > 1)
    rec.label(c["backend"], c["index"])


# ------------------------------------------------------------------ Dirichlet counts
@st.composite
def dircase(draw):
    k = draw(st.integers(1, 5))
    return {"alpha": draw(gen.vec(gen.num(0.1, 20), k)), "x": draw(gen.vec(st.integers(0, 30), k)), "fa": draw(st.sampled_from(FORMS)), "fx": draw(st.sampled_from(FORMS)),
            "fn": draw(st.sampled_from(["categorical_dirichlet", "multinomial_dirichlet"])), "mask": draw(st.integers(0, 2**k - 1))}


FORMS = ["list", "tuple", "ndarray", "symlist", "symtuple", "mixedlist", "objarray", "pandas", "fractions", "sqllist", "dictvalues"]


def form(v, kind, tag, mask):
    import pandas as pd

    s = lambda i: Sym(lambda e, i=i: e[tag][i])
    return {"list": lambda: list(v), "tuple": lambda: tuple(v), "dictvalues": lambda: dict(enumerate(v)).values(), "ndarray": lambda: np.array(v), "symlist": lambda: [s(i) for i in range(len(v))],
            "symtuple": lambda: tuple(s(i) for i in range(len(v))), "mixedlist": lambda: [s(i) if mask >> i & 1 else x for i, x in enumerate(v)],
            "objarray": lambda: np.array([Elem(lambda e, i=i: e[tag][i]) for i in range(len(v))] + [None], dtype=object)[:-1],
            "pandas": lambda: pd.Series(v), "fractions": lambda: [Fraction(x) for x in v],
            "sqllist": lambda: [mk_pypika("%s%d" % (tag, i), None) for i in range(len(v))]}[kind]()


@sub("C14", "dirichlet", dircase(), quick=600, thorough=10000, rule="a symbolic form on either side")
def dirichlet(c, rec):
    import conjugate.distributions as D
    import conjugate.models as F

    fa, fx = c["fa"], c["fx"]
    if fa == "dictvalues":  # a counter's values are data, not parameters
        fa = "list"
    if fx == "dictvalues" and fa in ("objarray", "pandas"):  # nothing such arrays can be added to
        fx = "list"
    if "sqllist" in (fa, fx) and {fa, fx} & {"symlist", "symtuple", "mixedlist", "objarray", "fractions", "pandas", "ndarray"}:
        fa, fx = ("sqllist", "list") if fa == "sqllist" else ("list", "sqllist")  # two expression libraries do not mix
    if "objarray" in (fa, fx) and {fa, fx} & {"symlist", "symtuple", "mixedlist", "pandas"}:
        fa, fx = ("objarray", "list") if fa == "objarray" else ("list", "objarray")
    if "pandas" in (fa, fx) and {fa, fx} & {"symlist", "symtuple", "mixedlist"}:
        fa, fx = "pandas", "list"
    post = sut(getattr(F, c["fn"]), x=form(c["x"], fx, "x", c["mask"]), prior=D.Dirichlet(form(c["alpha"], fa, "a", c["mask"])))
    e = {"a": c["alpha"], "x": c["x"]}
    es = {"%s%d" % (t, i): v for t in "ax" for i, v in enumerate(e[t])}
    out = list(post.alpha)
    expect(len(out) == len(c["alpha"]), "%d categories became %d", len(c["alpha"]), len(out))
    for i, g in enumerate(out):
        with sutblock("evaluating category %d" % i):
            g = ev_pypika(g, es) if hasattr(g, "get_sql") else ev_sym(g, e)
        expect(agree(float(g), c["alpha"][i] + c["x"][i]), "prior %s, counts %s: category %d is %r, should be %r", fa, fx, i, g, c["alpha"][i] + c["x"][i])
    rec.nontrivial(fa not in ("list", "ndarray") or fx not in ("list", "ndarray"))
    rec.label("%s/%s" % (fa, fx))


# ------------------------------------------------------------------ every distribution can hold symbols
def holders():
    import dataclasses

    import conjugate.distributions as D

    out = {}
    for n, cls in vars(D).items():
        if isinstance(cls, type) and dataclasses.is_dataclass(cls) and cls.__module__ == D.__name__:
            fs = [f.name for f in dataclasses.fields(cls) if f.name != "one_start"]
            if n == "NormalInverseGamma":
                fs.remove("delta_inverse")
            out[n] = fs
    return out


@st.composite
def holdcase(draw):
    h = holders()
    n = draw(st.sampled_from(sorted(h)))
    return {"cls": n, "sym": [f for f in h[n] if draw(st.integers(0, 3))], "v": [draw(st.sampled_from([1, 2.5, 0.25])) for _ in h[n]], "backend": draw(st.sampled_from(["sym", "pypika", "sympy", "fraction"])),
            "pos": draw(st.booleans())}


@sub("C14", "distributions-hold-symbols", holdcase(), quick=300, rule="at least one symbol")
def hold(c, rec):
    import conjugate.distributions as D

    fs = holders()[c["cls"]]
    e = dict(zip(fs, c["v"]))
    mk, ev = {"sym": (lambda n: Sym(lambda e: e[n]), ev_sym), "pypika": (lambda n: mk_pypika(n, None), ev_pypika), "sympy": (lambda n: mk_sympy(n, None), ev_sympy),
              "fraction": (lambda n: Fraction(e[n]), lambda x, e: x)}[c["backend"]]
    args = {f: mk(f) if f in c["sym"] else e[f] for f in fs}
    plain = fs != ["mu", "alpha", "beta", "nu"]
    o = sut(getattr(D, c["cls"]), *args.values()) if c["pos"] and plain else sut(getattr(D, c["cls"]), **args)
    for f in fs:
        with sutblock("evaluating %s.%s" % (c["cls"], f)):
            g = ev(getattr(o, f), e)
        expect(agree(float(g), e[f]), "%s(%r) made with %s symbolic holds %s = %r", c["cls"], e, c["sym"], f, g)
    rec.nontrivial(bool(c["sym"]))
    rec.label(c["backend"], c["cls"])
