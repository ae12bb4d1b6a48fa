"""C25: distributions are plain value objects: equality, textual form, copies and pickles carry exactly the parameters."""
import copy
import dataclasses
import pickle

import numpy as np
from hypothesis import strategies as st

from pbt import dists, gen
from pbt.core import expect, sub, sut

V = gen.num(0.05, 50)
U = gen.prob()
N = st.integers(1, 40)
R = gen.real(50)
B = st.booleans()
# class -> documented parameters, in the documented order; "vec" and "mat" entries need arrays
CLASSES = {
    "Beta": dict(alpha=V, beta=V), "Binomial": dict(n=N, p=U), "Exponential": dict(lam=V), "Gamma": dict(alpha=V, beta=V), "NegativeBinomial": dict(n=N, p=U),
    "Hypergeometric": dict(N=st.integers(20, 60), k=st.integers(1, 20), n=st.integers(1, 20)), "Poisson": dict(lam=V), "BetaBinomial": dict(n=N, alpha=V, beta=V),
    "BetaNegativeBinomial": dict(n=N, alpha=V, beta=V), "Geometric": dict(p=U, one_start=B), "BetaGeometric": dict(alpha=V, beta=V, one_start=B), "Normal": dict(mu=R, sigma=V),
    "Uniform": dict(low=gen.num(-9, 0), high=gen.num(0.5, 9)), "Pareto": dict(x_m=V, alpha=V), "InverseGamma": dict(alpha=V, beta=V), "StudentT": dict(mu=R, sigma=V, nu=V),
    "Lomax": dict(alpha=V, lam=V), "CompoundGamma": dict(alpha=V, beta=V, lam=V), "VonMises": dict(mu=gen.num(-3, 3), kappa=V), "ScaledInverseChiSquared": dict(nu=V, sigma2=V),
    "LogNormal": dict(mu=gen.num(-3, 3), sigma=gen.num(0.1, 3)), "Weibull": dict(beta=V, theta=V),
    "GammaKnownRateProportional": dict(a=V, b=V, c=V), "GammaProportional": dict(p=V, q=V, r=V, s=V), "BetaProportional": dict(p=U, q=U, k=V),
    "VonMisesKnownConcentration": dict(a=V, b=gen.num(-3, 3)), "VonMisesKnownDirectionProportional": dict(c=V, r=V), "NormalGamma": dict(mu=R, lam=V, alpha=V, beta=V),
    "NormalInverseGamma": dict(mu=R, alpha=V, beta=V, delta_inverse=st.none(), nu=V),
    "Dirichlet": dict(alpha="vec"), "Multinomial": dict(n=N, p="prob"), "DirichletMultinomial": dict(alpha="vec", n=N), "MultivariateNormal": dict(mu="loc", cov="mat"),
    "MultivariateStudentT": dict(mu="loc", sigma="mat", nu=V), "InverseWishart": dict(nu="df", psi="mat"), "Wishart": dict(nu="df", V="mat"),
    "NormalWishart": dict(mu="loc", lam=V, W="mat", nu="df"), "NormalInverseWishart": dict(mu="loc", kappa=V, nu="df", psi="mat"),
}
MULTI = [k for k, v in CLASSES.items() if any(isinstance(s, str) for s in v.values())]
ARRAYABLE = [k for k in CLASSES if k not in MULTI and k not in ("NormalInverseGamma",)]
XS = np.array([-1.5, 0.0, 0.25, 0.5, 1.0, 2.0, 7.0])


def draw_params(draw, name, p):
    out = {}
    for f, s in CLASSES[name].items():
        if isinstance(s, str):
            out[f] = {"vec": lambda: draw(gen.vec(V, p)), "prob": lambda: draw(gen.simplex(p)), "loc": lambda: draw(gen.vec(R, p)), "mat": lambda: draw(gen.spd(p)),
                      "df": lambda: draw(gen.num(p + 1, 40))}[s]()
        else:
            out[f] = draw(s)
    return out


@st.composite
def case(draw):
    name = draw(st.sampled_from(sorted(CLASSES)))
    p = draw(st.integers(2, 4))
    c = {"cls": name, "p": p, "v": draw_params(draw, name, p), "w": draw_params(draw, name, p), "field": draw(st.integers(0, 9)), "proto": draw(st.integers(2, pickle.HIGHEST_PROTOCOL)),
         "bounds": draw(st.one_of(st.none(), st.tuples(gen.num(-5, 1), gen.num(2, 90)))), "np": draw(st.booleans()), "rows": 0}
    if name in ARRAYABLE and draw(st.booleans()):
        n = c["rows"] = draw(st.integers(1, 4))
        for k in ("v", "w"):
            for f, s in CLASSES[name].items():
                if f != "one_start" and draw(st.booleans()):
                    c[k][f] = draw(gen.vec(s, n))
    return c


def D():
    import conjugate.distributions as d

    return d


def real(v, npy):
    if isinstance(v, list):
        return np.array(v)
    if npy and isinstance(v, float):
        return np.float64(v)
    return v


def eq(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.dtype == b.dtype and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def holds(o, cls, v, what):
    expect(type(o) is cls, "%s is a %s, should be a %s", what, type(o).__name__, cls.__name__)
    for f, w in v.items():
        g = getattr(o, f)
        expect(eq(g, w), "%s: %s is %r, should be %r", what, f, g, w)


def law(o):
    """numbers that show the law, where the object offers any"""
    if not hasattr(type(o), "dist") or isinstance(o, (D().Dirichlet, D().Multinomial, D().DirichletMultinomial, D().MultivariateNormal, D().MultivariateStudentT, D().InverseWishart, D().Wishart)):
        return None
    d = o.dist
    with np.errstate(all="ignore"):
        f = dists.BY_KEY.get(type(o).__name__)
        pm = f.pm if f else "pmf"
        x = XS if pm == "pdf" else np.arange(0, 7)
        x = x[:, None] if any(np.ndim(v) for v in dataclasses.asdict(o).values()) else x
        return np.asarray(getattr(d, pm)(x))


def same_law(a, b, what):
    x, y = sut(law, a), sut(law, b)
    expect(x is None or np.array_equal(x, y, equal_nan=True), "%s: densities %r, of the original %r", what, y, x)


def bounds(o):
    if not hasattr(o, "set_bounds"):
        return None
    lo = o.min_value
    try:
        hi = o.max_value
    except ValueError:
        hi = None
    f = lambda v: v.tolist() if isinstance(v, (np.ndarray, np.generic)) else v
    return f(lo), f(hi)


@sub("C25", "copies-and-equality", case(), quick=1500, thorough=20000, rule="always", shards=2)
def check(c, rec):
    cls = getattr(D(), c["cls"])
    names = list(CLASSES[c["cls"]])
    v = {k: real(x, c["np"]) for k, x in c["v"].items()}
    fresh = lambda: {k: (x.copy() if isinstance(x, np.ndarray) else x) for k, x in v.items()}
    o = sut(cls, **fresh())
    holds(o, cls, v, "built by keyword")
    holds(sut(cls, *fresh().values()), cls, v, "built by position")
    scal = not any(isinstance(x, np.ndarray) for x in v.values())
    nb = bounds(o)
    if c["bounds"] and nb is not None:
        o.set_bounds(*c["bounds"])
        nb = tuple(c["bounds"])
        expect(bounds(o) == nb, "bounds are %r after setting %r", bounds(o), nb)

    def unchanged(what):
        holds(o, cls, v, what)
        expect(bounds(o) == nb, "%s: bounds of the original are %r, were %r", what, bounds(o), nb)

    # equality is that of class and parameters, whatever the plot bounds
    twin = sut(cls, **fresh())
    if scal:
        expect(sut(lambda: o == twin) is True and (o != twin) is False and twin == o, "%r and an object with the same parameters are not equal", o)
        f = names[c["field"] % len(names)]
        if c["w"][f] is not None and not isinstance(c["w"][f], list) and c["w"][f] != c["v"][f]:
            other = sut(cls, **{**fresh(), f: real(c["w"][f], c["np"])})
            expect(sut(lambda: o == other) is False and o != other and other != o, "%r and %r are equal", o, other)
            rec.label("unequal")
        for n2, fs in CLASSES.items():
            if n2 != c["cls"] and len(fs) == len(names) and n2 not in MULTI and None not in v.values():
                if n2 in ("Hypergeometric", "Dirichlet"):
                    continue
                alien = getattr(D(), n2)(*v.values())
                expect(not (o == alien) and not (alien == o), "%r equals %r", o, alien)
        expect(o != 1 and o != None and o != "x" and o != tuple(v.values()), "%r equals something that is no distribution", o)  # noqa: E711
    # the textual form names the class and every parameter, and builds the object again
    text = sut(repr, o)
    expect(text.startswith(c["cls"] + "("), "textual form %r does not name the class", text)
    for n in names:
        expect(n + "=" in text, "textual form %r lacks %s", text, n)
    if scal:
        back = eval(text, {"np": np, "nan": np.nan, "inf": np.inf, **vars(D())})
        expect(back == o, "the textual form %r denotes %r", text, back)
    # copies
    for what, q in [("copy", copy.copy(o)), ("deep copy", sut(copy.deepcopy, o)), ("pickle, protocol %d" % c["proto"], pickle.loads(sut(pickle.dumps, o, c["proto"]))),
                    ("rebuilt from its fields", cls(**dataclasses.asdict(o))), ("replace", dataclasses.replace(o))]:
        holds(q, cls, v, what)
        same_law(o, q, what)
        if what in ("copy", "deep copy") or what.startswith("pickle"):
            expect(bounds(q) == nb, "%s: bounds are %r, original has %r", what, bounds(q), nb)
        # the two are separate objects
        if hasattr(q, "set_bounds"):
            q.set_bounds(-11.0, 97.0)
        for n in names:
            x = getattr(q, n)
            if isinstance(x, np.ndarray) and what not in ("copy", "replace"):
                expect(not np.shares_memory(x, getattr(o, n)), "%s shares the storage of %s", what, n)
                x[...] = 1
        unchanged("after editing its " + what)
        for n in names:
            setattr(q, n, real(c["w"][n], c["np"]))
        if c["rows"] == 0:
            want = sut(cls, **{k: real(x, c["np"]) for k, x in c["w"].items()})
            same_law(want, q, "%s given other parameters" % what)
        unchanged("after other parameters were given to its " + what)
    d = dataclasses.asdict(o)
    expect(list(d) == names, "the fields are %r, documented are %r", list(d), names)
    if hasattr(o, "params"):
        expect(list(o.params) == names and all(eq(o.params[n], v[n]) for n in names), "params are %r", o.params)
    # one field replaced
    f = names[c["field"] % len(names)]
    if c["w"][f] is not None and c["rows"] == 0:
        q = sut(dataclasses.replace, o, **{f: real(c["w"][f], c["np"])})
        holds(q, cls, {**v, f: real(c["w"][f], c["np"])}, "replaced " + f)
        unchanged("after replace")
    rec.nontrivial()
    rec.label(c["cls"], "array" if not scal else "scalar")
