"""C16: mismatched prior or distribution types are always rejected clearly."""
import dataclasses
import types

import numpy as np
from hypothesis import strategies as st

from pbt import gen, models, mvmodels as mv, preds
from pbt.core import expect, fail, sub, sut

PRIORS = {
    "binomial_beta": ["Beta"], "bernoulli_beta": ["Beta"], "negative_binomial_beta": ["Beta"], "hypergeometric_beta_binomial": ["BetaBinomial"],
    "geometric_beta": ["Beta"], "categorical_dirichlet": ["Dirichlet"], "multinomial_dirichlet": ["Dirichlet"], "poisson_gamma": ["Gamma"],
    "exponential_gamma": ["Gamma"], "gamma_known_shape": ["Gamma"], "inverse_gamma_known_rate": ["Gamma"], "normal_known_variance": ["Normal"],
    "normal_known_precision": ["Normal"], "normal_known_mean": ["InverseGamma", "ScaledInverseChiSquared"],
    "normal": ["NormalInverseGamma", "NormalGamma"], "normal_normal_inverse_gamma": ["NormalInverseGamma"], "linear_regression": ["NormalInverseGamma"],
    "uniform_pareto": ["Pareto"], "pareto_gamma": ["Gamma"], "gamma": ["GammaProportional"], "gamma_known_rate": ["GammaKnownRateProportional"],
    "beta": ["BetaProportional"], "von_mises_known_concentration": ["VonMisesKnownConcentration"],
    "von_mises_known_direction": ["VonMisesKnownDirectionProportional"], "multivariate_normal_known_covariance": ["MultivariateNormal"],
    "multivariate_normal_known_precision": ["MultivariateNormal"], "multivariate_normal_known_mean": ["InverseWishart"],
    "multivariate_normal": ["NormalInverseWishart"], "log_normal": ["NormalInverseGamma", "NormalGamma"],
    "weibull_inverse_gamma_known_shape": ["InverseGamma"],
}
DISTS = {
    "binomial_beta_predictive": ["Beta"], "bernoulli_beta_predictive": ["Beta"], "negative_binomial_beta_predictive": ["Beta"],
    "geometric_beta_predictive": ["Beta"], "categorical_dirichlet_predictive": ["Dirichlet"], "multinomial_dirichlet_predictive": ["Dirichlet"],
    "poisson_gamma_predictive": ["Gamma"], "exponential_gamma_predictive": ["Gamma"], "gamma_known_shape_predictive": ["Gamma"],
    "normal_known_variance_predictive": ["Normal"], "normal_known_precision_predictive": ["Normal"],
    "normal_known_mean_predictive": ["InverseGamma", "ScaledInverseChiSquared"], "normal_predictive": ["NormalInverseGamma", "NormalGamma"],
    "normal_normal_inverse_gamma_predictive": ["NormalInverseGamma"], "linear_regression_predictive": ["NormalInverseGamma"],
    "multivariate_normal_known_covariance_predictive": ["MultivariateNormal"], "multivariate_normal_known_precision_predictive": ["MultivariateNormal"],
    "multivariate_normal_predictive": ["NormalInverseWishart"],
}
ALL = [(f, "prior", t) for f, t in PRIORS.items()] + [(f, "distribution", t) for f, t in DISTS.items()]

I2 = np.array([[2.0, 0.3], [0.3, 1.0]])
M2 = np.array([0.5, -1.0])
X2 = np.array([[1.0, 2.0], [0.0, 1.0], [3.0, -1.0]])
# one valid instance of every distribution class
MAKE = {
    "Beta": dict(alpha=2.0, beta=3.0), "Binomial": dict(n=5, p=0.4), "Dirichlet": dict(alpha=np.array([1.0, 2.0])), "Multinomial": dict(n=3, p=np.array([0.4, 0.6])),
    "DirichletMultinomial": dict(alpha=np.array([1.0, 2.0]), n=3), "Exponential": dict(lam=2.0), "Gamma": dict(alpha=2.0, beta=3.0),
    "NegativeBinomial": dict(n=3, p=0.4), "Hypergeometric": dict(N=20, k=5, n=6), "Poisson": dict(lam=2.0), "BetaBinomial": dict(n=9, alpha=2.0, beta=3.0),
    "BetaNegativeBinomial": dict(n=3, alpha=2.0, beta=3.0), "Geometric": dict(p=0.4), "BetaGeometric": dict(alpha=2.0, beta=3.0), "Normal": dict(mu=0.5, sigma=2.0),
    "MultivariateNormal": dict(mu=M2, cov=I2), "Uniform": dict(low=1.0, high=4.0), "Pareto": dict(x_m=1.5, alpha=2.0), "InverseGamma": dict(alpha=2.0, beta=3.0),
    "NormalInverseGamma": dict(mu=0.5, alpha=2.0, beta=3.0, nu=1.5), "StudentT": dict(mu=0.5, sigma=2.0, nu=4.0), "MultivariateStudentT": dict(mu=M2, sigma=I2, nu=4.0),
    "Lomax": dict(alpha=2.0, lam=3.0), "CompoundGamma": dict(alpha=2.0, beta=3.0, lam=1.5), "GammaKnownRateProportional": dict(a=2.0, b=3.0, c=1.5),
    "GammaProportional": dict(p=2.0, q=3.0, r=1.5, s=1.0), "BetaProportional": dict(p=0.2, q=0.3, k=2.0), "VonMises": dict(mu=0.5, kappa=2.0),
    "VonMisesKnownConcentration": dict(a=2.0, b=0.5), "VonMisesKnownDirectionProportional": dict(c=2.0, r=0.5), "ScaledInverseChiSquared": dict(nu=4.0, sigma2=1.5),
    "NormalGamma": dict(mu=0.5, lam=1.5, alpha=2.0, beta=3.0), "InverseWishart": dict(nu=5.0, psi=I2), "Wishart": dict(nu=5.0, V=I2),
    "NormalWishart": dict(mu=M2, lam=1.5, W=I2, nu=5.0), "NormalInverseWishart": dict(mu=M2, kappa=1.5, nu=5.0, psi=I2), "LogNormal": dict(mu=0.5, sigma=2.0),
    "Weibull": dict(beta=2.0, theta=3.0),
}
# valid remaining arguments of every function
REST = {
    "binomial_beta": dict(n=5, x=2), "bernoulli_beta": dict(x=1), "negative_binomial_beta": dict(r=2, n=3, x=4), "hypergeometric_beta_binomial": dict(x_total=2, n=5),
    "geometric_beta": dict(x_total=7, n=3), "categorical_dirichlet": dict(x=np.array([1, 2])), "multinomial_dirichlet": dict(x=np.array([1, 2])),
    "poisson_gamma": dict(x_total=7, n=3), "exponential_gamma": dict(x_total=7.5, n=3), "gamma_known_shape": dict(x_total=7.5, n=3, alpha=1.5),
    "inverse_gamma_known_rate": dict(reciprocal_x_total=7.5, n=3, alpha=1.5), "normal_known_variance": dict(x_total=7.5, n=3, var=2.0),
    "normal_known_precision": dict(x_total=7.5, n=3, precision=2.0), "normal_known_mean": dict(x_total=7.5, x2_total=30.0, n=3, mu=1.0),
    "normal": dict(x_total=7.5, x2_total=30.0, n=3), "normal_normal_inverse_gamma": dict(x_total=7.5, x2_total=30.0, n=3),
    "linear_regression": dict(X=X2, y=np.array([1.0, 2.0, 0.5])), "uniform_pareto": dict(x_max=7.0, n=3), "pareto_gamma": dict(n=3, ln_x_total=7.0, x_m=1.5),
    "gamma": dict(x_total=7.5, x_prod=3.0, n=3), "gamma_known_rate": dict(x_prod=3.0, n=3, beta=2.0), "beta": dict(x_prod=0.3, one_minus_x_prod=0.2, n=3),
    "von_mises_known_concentration": dict(cos_total=1.0, sin_total=0.5, n=3, kappa=2.0), "von_mises_known_direction": dict(centered_cos_total=1.0, n=3),
    "multivariate_normal_known_covariance": dict(n=3, x_bar=M2, cov=I2), "multivariate_normal_known_precision": dict(n=3, x_bar=M2, precision=I2),
    "multivariate_normal_known_mean": dict(X=X2, mu=M2), "multivariate_normal": dict(X=X2), "log_normal": dict(ln_x_total=7.5, ln_x2_total=30.0, n=3),
    "weibull_inverse_gamma_known_shape": dict(n=3, x_beta_total=7.0),
    "binomial_beta_predictive": dict(n=5), "bernoulli_beta_predictive": {}, "negative_binomial_beta_predictive": dict(r=2), "geometric_beta_predictive": {},
    "categorical_dirichlet_predictive": dict(n=2), "multinomial_dirichlet_predictive": dict(n=2), "poisson_gamma_predictive": dict(n=2), "exponential_gamma_predictive": {},
    "gamma_known_shape_predictive": dict(alpha=1.5), "normal_known_variance_predictive": dict(var=2.0), "normal_known_precision_predictive": dict(precision=2.0),
    "normal_known_mean_predictive": dict(mu=1.0), "normal_predictive": {}, "normal_normal_inverse_gamma_predictive": {}, "linear_regression_predictive": dict(X=X2),
    "multivariate_normal_known_covariance_predictive": dict(cov=I2), "multivariate_normal_known_precision_predictive": dict(precision=I2), "multivariate_normal_predictive": {},
}
OTHER = ["None", "int", "float", "str", "tuple", "list", "dict", "ndarray", "object", "frozen", "function", "namespace", "lookalike", "samename", "scipy", "asdict",
         "subscriptable", "proxy", "bool", "lie"]


def D():
    import conjugate.distributions as d

    return d


def F():
    import conjugate.models as f

    return f


def instance(name, regress=False):
    p = MAKE[name]
    if name == "NormalInverseGamma" and regress:
        p = dict(mu=M2, delta_inverse=I2, alpha=2.0, beta=3.0)
    return getattr(D(), name)(**p)


def regress(fn):
    return fn.startswith("linear_regression")


def impostor(kind, accepted, fn):
    """an object that is none of the accepted types, made to resemble the accepted one"""
    a = instance(accepted, regress(fn))
    fields = {f.name: getattr(a, f.name) for f in dataclasses.fields(a)}
    if kind == "class":
        return type(a)
    if kind == "namespace":
        return types.SimpleNamespace(**fields)
    if kind == "lookalike":
        return dataclasses.make_dataclass("Lookalike", [(k, object) for k in fields])(**fields)
    if kind == "samename":  # an unrelated class that happens to have the accepted name
        return dataclasses.make_dataclass(accepted, [(k, object) for k in fields])(**fields)
    if kind == "asdict":
        return dict(fields)
    if kind == "scipy":
        try:
            return a.dist
        except Exception:
            return None
    if kind == "proxy":
        class Proxy:
            def __getattr__(self, k):
                return fields[k]

        return Proxy()
    if kind == "lie":
        return "Beta"
    if kind == "tuple":
        return tuple(fields.values())
    return {"None": None, "int": 1, "float": 2.0, "str": accepted, "list": [a], "dict": {}, "ndarray": np.array([1.0, 2.0]), "object": object(),
            "frozen": frozenset([1]), "function": instance, "subscriptable": {"alpha": 1, "beta": 1}, "bool": True}[kind]


@st.composite
def case(draw):
    fn, par, acc = draw(st.sampled_from(ALL))
    other = draw(st.one_of(st.sampled_from(sorted(MAKE)), st.sampled_from(OTHER + ["class", "namespace", "lookalike", "samename", "proxy"]), st.sampled_from(sorted(MAKE)).map(lambda n: "class:" + n)))
    return {"fn": fn, "other": other, "acc": draw(st.sampled_from(acc)), "par": par}


def check_reject(c, rec, make):
    fn, par = c["fn"], c["par"]
    accepted = dict((f, a) for f, p, a in ALL)[fn]
    o = make()
    good = isinstance(o, tuple(getattr(D(), a) for a in accepted))
    f = getattr(F(), fn)
    if good:
        o2 = instance(type(o).__name__, regress(fn))
        r = sut(f, **{par: o2}, **REST[fn])
        expect(r is not None and dataclasses.is_dataclass(r), "%s returned %r", fn, r)
        rec.label("accepted")
        return
    try:
        r = f(**{par: o}, **REST[fn])
    except ValueError as e:
        msg = str(e)
        for a in accepted:
            expect(a in msg, "%s rejected a %s without naming the accepted type %s: %r", fn, type(o).__name__, a, msg)
        rest = msg
        for a in sorted(accepted, key=len, reverse=True):
            rest = rest.replace(a, "", 1)
        t = type(o).__name__
        expect(t in rest, "%s rejected a %s without naming the received type: %r", fn, t, msg)
    except Exception as e:
        fail("%s given %s %s raised %s instead of a ValueError: %s" % (fn, par, describe(o), type(e).__name__, str(e)[:200]))
    else:
        fail("%s accepted %s %s and returned %r" % (fn, par, describe(o), r))
    rec.nontrivial()


def describe(o):
    return "class %s" % o.__name__ if isinstance(o, type) else type(o).__name__


@sub("C16", "reject-or-accept", case(), quick=3000, thorough=30000, rule="the object is not of an accepted type", shards=2)
def reject(c, rec):
    def make():
        if c["other"].startswith("class:"):
            return getattr(D(), c["other"][6:])
        if c["other"] in MAKE:
            return instance(c["other"])
        return impostor(c["other"], c["acc"], c["fn"])

    check_reject(c, rec, make)
    rec.label(c["par"], c["other"] if c["other"] not in MAKE and not c["other"].startswith("class:") else "class" if ":" in c["other"] else "distribution")


# every function with every distribution class, its class object, and None
def pairs():
    return st.sampled_from([(f, p, o) for f, p, a in ALL for o in sorted(MAKE) + ["None"]]).map(list)


@sub("C16", "pairs", st.lists(pairs(), min_size=20, max_size=60), quick=150, thorough=1500, rule="always")
def table(c, rec):
    for fn, par, o in c:
        check_reject({"fn": fn, "par": par}, rec, lambda: None if o == "None" else instance(o))
    rec.nontrivial()


# ------------------------------------------------------------------ accepted types and subclasses; every function is covered
@st.composite
def acase(draw):
    fn, par, acc = draw(st.sampled_from(ALL))
    return {"fn": fn, "par": par, "acc": draw(st.sampled_from(acc)), "depth": draw(st.integers(0, 3)), "mixin": draw(st.booleans()), "rename": draw(st.booleans())}


@sub("C16", "subclasses", acase(), quick=500, thorough=5000, rule="a proper subclass")
def subclasses(c, rec):
    base = instance(c["acc"], regress(c["fn"]))
    cls = type(base)
    for i in range(c["depth"]):
        bases = (type("Mix", (), {"extra": i}), cls) if c["mixin"] and i == 0 else (cls,)
        cls = type("Sub%d" % i if c["rename"] else c["acc"], bases, {})
    o = cls(**{f.name: getattr(base, f.name) for f in dataclasses.fields(base)})
    f = getattr(F(), c["fn"])
    a, b = sut(f, **{c["par"]: base}, **REST[c["fn"]]), sut(f, **{c["par"]: o}, **REST[c["fn"]])
    for x in dataclasses.fields(a):
        u, v = getattr(a, x.name), getattr(b, x.name)
        expect((u is None and v is None) or np.allclose(np.asarray(u, float), np.asarray(v, float), rtol=1e-12), "%s: %s = %r for a %s, %r for a subclass", c["fn"], x.name, u, c["acc"], v)
    rec.nontrivial(c["depth"] > 0)
    rec.label(c["acc"], "depth %d" % c["depth"])


# ------------------------------------------------------------------ rejection does not depend on the data or on earlier calls
@st.composite
def hcase(draw):
    fn, par, acc = draw(st.sampled_from(ALL))
    wrong = draw(st.one_of(st.sampled_from([n for n in sorted(MAKE) if n not in acc]), st.sampled_from(["None", "int", "ndarray", "dict", "class", "namespace", "lookalike", "proxy"])))
    rest = REST[fn]
    over = {k: draw(st.sampled_from(["zero", "none", "same", "array"])) for k in rest}
    return {"fn": fn, "par": par, "wrong": wrong, "over": over, "acc": draw(st.sampled_from(acc)), "before": draw(st.integers(0, 3)), "omit": draw(st.booleans())}


@sub("C16", "any-data-any-order", hcase(), quick=600, thorough=6000, rule="always")
def anydata(c, rec):
    fn, par = c["fn"], c["par"]
    f = getattr(F(), fn)
    accepted = dict((q, a) for q, p, a in ALL)[fn]
    for i in range(c["before"]):
        sut(f, **{par: instance(c["acc"], regress(fn))}, **REST[fn])
    rest = {k: {"zero": 0, "none": None, "same": v, "array": np.array([1.0, 2.0])}[c["over"][k]] for k, v in REST[fn].items()}
    if any(v == "none" for v in c["over"].values()) or all(v == "same" for v in c["over"].values()):
        rec.label("missing data")
    wrong = instance(c["wrong"]) if c["wrong"] in MAKE else impostor(c["wrong"], c["acc"], fn)
    try:
        r = f(**{par: wrong}, **rest)
    except ValueError as e:
        expect(all(a in str(e) for a in accepted) and type(wrong).__name__ in str(e), "%s given a %s: message %r does not name %r and the received type", fn, c["wrong"], str(e), accepted)
    except Exception as e:
        fail("%s given a %s raised %s instead of a ValueError: %s" % (fn, c["wrong"], type(e).__name__, str(e)[:200]))
    else:
        fail("%s accepted a %s and returned %r" % (fn, c["wrong"], r))
    try:
        r = f(**rest)
    except (ValueError, TypeError):
        pass
    except Exception as e:
        fail("%s without %s raised %s: %s" % (fn, par, type(e).__name__, str(e)[:200]))
    else:
        fail("%s without %s returned %r" % (fn, par, r))
    rec.nontrivial()
