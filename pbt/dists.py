"""Table of the univariate distributions: documented law, support, points."""
import mpmath as mp
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.ref import M


class Dist:
    def __init__(self, name, params, lp, support, x, continuous, mean, var, vec, methods=None, consts=None, key=None, fix=None):
        """params: strategies; lp(point, params)->log density; support(x, params); mean/var(params) -> mpf or None"""
        self.name, self.params, self.lp, self.support, self.x = name, params, lp, support, x
        self.continuous, self.mean, self.var, self.vec = continuous, mean, var, vec
        self.consts = consts or {}
        self.fix = fix or (lambda p: p)  # drawn numbers -> parameters
        self.key = key or name
        m = ["pdf" if continuous else "pmf", "cdf", "mean", "ppf"]
        self.methods = methods or m
        self.pm = "pdf" if continuous else "pmf"

    def make(self, params, kind="raw"):
        import conjugate.distributions as D
        from pbt.models import flag

        return getattr(D, self.name)(**params, **{k: flag(v, kind) for k, v in self.consts.items()})

    def logp(self, x, p):
        p = {k: M(v) for k, v in p.items()}
        x = M(x)
        if not self.support(x, p):
            return -mp.inf
        return self.lp(x, p)


DISTS = []


def add(*a, **k):
    DISTS.append(Dist(*a, **k))


P = gen.pos(1e-2, 1e3)
PM = gen.pos(0.02, 5000)
K = gen.integer(-1, 300)
XP = st.one_of(gen.pos(1e-4, 1e4), gen.pos(0.01, 10), st.just(-1.0))
XR = st.one_of(gen.real(200), gen.real(5))
X01 = st.one_of(gen.prob(1e-6), st.sampled_from([-0.5, 1.5]))
AB = dict(alpha=(0.2, 20), beta=(0.2, 20))
isint = lambda x: x == mp.floor(x)

add("Beta", dict(alpha=P, beta=P), lambda x, p: ref.beta(x, p["alpha"], p["beta"]), lambda x, p: 0 < x < 1, X01, True,
    lambda p: p["alpha"] / (p["alpha"] + p["beta"]),
    lambda p: p["alpha"] * p["beta"] / ((p["alpha"] + p["beta"]) ** 2 * (p["alpha"] + p["beta"] + 1)), AB)
add("Binomial", dict(n=gen.integer(1, 300), p=gen.prob(1e-3)), lambda x, p: ref.binom(x, p["n"], p["p"]),
    lambda x, p: 0 <= x <= p["n"] and isint(x), K, False, lambda p: p["n"] * p["p"], lambda p: p["n"] * p["p"] * (1 - p["p"]),
    dict(n=(1, 30, True), p=(0.05, 0.95)))
add("Exponential", dict(lam=P), lambda x, p: ref.expon(x, p["lam"]), lambda x, p: x >= 0, XP, True,
    lambda p: 1 / p["lam"], lambda p: 1 / p["lam"] ** 2, dict(lam=(0.2, 9)))
add("Gamma", dict(alpha=P, beta=P), lambda x, p: ref.gamma(x, p["alpha"], p["beta"]), lambda x, p: x > 0, XP, True,
    lambda p: p["alpha"] / p["beta"], lambda p: p["alpha"] / p["beta"] ** 2, AB)
add("NegativeBinomial", dict(n=PM, p=gen.prob(1e-2)), lambda x, p: ref.nbinom(x, p["n"], p["p"]), lambda x, p: x >= 0 and isint(x), K,
    False, lambda p: p["n"] * (1 - p["p"]) / p["p"], lambda p: p["n"] * (1 - p["p"]) / p["p"] ** 2, dict(n=(0.5, 9), p=(0.1, 0.9)))


SHARE = st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0, 0.5]), st.floats(0, 0.2))


add("Hypergeometric", dict(N=gen.integer(1, 400), k=SHARE, n=SHARE),
    lambda x, p: ref.hypergeom(x, p["N"], p["k"], p["n"]),
    lambda x, p: max(0, p["n"] - (p["N"] - p["k"])) <= x <= min(p["k"], p["n"]) and isint(x), st.integers(-1, 401), False,
    lambda p: p["n"] * p["k"] / p["N"],
    lambda p: p["n"] * p["k"] / p["N"] * (p["N"] - p["k"]) / p["N"] * (p["N"] - p["n"]) / (p["N"] - 1) if p["N"] > 1 else None,
    dict(N=(20, 60, True), k=(0, 20, True), n=(0, 20, True)),
    fix=lambda p: {"N": p["N"], "k": int(round(p["k"] * p["N"])), "n": int(round(p["n"] * p["N"]))})
add("Poisson", dict(lam=gen.pos(1e-3, 2000)), lambda x, p: ref.poisson(x, p["lam"]), lambda x, p: x >= 0 and isint(x), K, False,
    lambda p: p["lam"], lambda p: p["lam"], dict(lam=(0.2, 9)))
add("BetaBinomial", dict(n=gen.integer(1, 300), alpha=PM, beta=PM), lambda x, p: ref.betabinom(x, p["n"], p["alpha"], p["beta"]),
    lambda x, p: 0 <= x <= p["n"] and isint(x), K, False, lambda p: p["n"] * p["alpha"] / (p["alpha"] + p["beta"]),
    lambda p: p["n"] * p["alpha"] * p["beta"] * (p["alpha"] + p["beta"] + p["n"])
    / ((p["alpha"] + p["beta"]) ** 2 * (p["alpha"] + p["beta"] + 1)),
    dict(n=(1, 30, True), alpha=(0.2, 20), beta=(0.2, 20)))
add("BetaNegativeBinomial", dict(n=gen.integer(1, 100), alpha=PM, beta=PM),
    lambda x, p: ref.betanbinom(x, p["n"], p["alpha"], p["beta"]), lambda x, p: x >= 0 and isint(x), K, False,
    lambda p: p["n"] * p["beta"] / (p["alpha"] - 1) if p["alpha"] > 1.01 else None,
    lambda p: p["n"] * (p["alpha"] + p["n"] - 1) * p["beta"] * (p["alpha"] + p["beta"] - 1) / ((p["alpha"] - 2) * (p["alpha"] - 1) ** 2)
    if p["alpha"] > 2.01 else None,
    dict(n=(1, 9, True), alpha=(2.5, 20), beta=(0.2, 20)), methods=["pmf", "cdf", "mean"])
for one in (True, False):
    add("Geometric", dict(p=gen.prob(1e-2)), lambda x, p, one=one: ref.geom(x, p["p"], one),
        lambda x, p, one=one: x >= (1 if one else 0) and isint(x), K, False,
        lambda p, one=one: 1 / p["p"] - (0 if one else 1), lambda p: (1 - p["p"]) / p["p"] ** 2, dict(p=(0.1, 0.9)),
        consts={"one_start": one}, key="Geometric-%d" % one)
    add("BetaGeometric", dict(alpha=PM, beta=PM), lambda x, p, one=one: ref.betageom(x, p["alpha"], p["beta"], one),
        lambda x, p, one=one: x >= (1 if one else 0) and isint(x), K, False, None, None, AB, methods=["pmf"],
        consts={"one_start": one}, key="BetaGeometric-%d" % one)
add("Normal", dict(mu=gen.real(100), sigma=P), lambda x, p: ref.normal(x, p["mu"], p["sigma"]), lambda x, p: True, XR, True,
    lambda p: p["mu"], lambda p: p["sigma"] ** 2, dict(mu=(-5, 5), sigma=(0.2, 9)))
add("Uniform", dict(low=gen.num(-300, 300), high=gen.pos(1e-3, 500)), lambda x, p: -mp.log(p["high"] - p["low"]),
    lambda x, p: p["low"] <= x <= p["high"], st.one_of(gen.num(-310, 310), gen.num(-60, 60)), True, lambda p: (p["low"] + p["high"]) / 2,
    lambda p: (p["high"] - p["low"]) ** 2 / 12, dict(low=(-5, 4), high=(5, 9)), fix=lambda p: {"low": p["low"], "high": p["low"] + p["high"]})
add("Pareto", dict(x_m=PM, alpha=PM), lambda x, p: ref.pareto(x, p["x_m"], p["alpha"]), lambda x, p: x >= p["x_m"],
    gen.pos(1e-3, 1e4), True, lambda p: p["alpha"] * p["x_m"] / (p["alpha"] - 1) if p["alpha"] > 1.01 else None,
    lambda p: p["x_m"] ** 2 * p["alpha"] / ((p["alpha"] - 1) ** 2 * (p["alpha"] - 2)) if p["alpha"] > 2.01 else None,
    dict(x_m=(0.2, 5), alpha=(1.5, 9)))
add("InverseGamma", dict(alpha=PM, beta=PM), lambda x, p: ref.invgamma(x, p["alpha"], p["beta"]), lambda x, p: x > 0,
    st.one_of(gen.pos(1e-2, 1e3), st.just(-1.0)), True, lambda p: p["beta"] / (p["alpha"] - 1) if p["alpha"] > 1.01 else None,
    lambda p: p["beta"] ** 2 / ((p["alpha"] - 1) ** 2 * (p["alpha"] - 2)) if p["alpha"] > 2.01 else None,
    dict(alpha=(1.5, 9), beta=(0.2, 9)))
add("ScaledInverseChiSquared", dict(nu=PM, sigma2=PM), lambda x, p: ref.sics(x, p["nu"], p["sigma2"]), lambda x, p: x > 0,
    st.one_of(gen.pos(1e-2, 1e3), st.just(-1.0)), True, lambda p: p["nu"] * p["sigma2"] / (p["nu"] - 2) if p["nu"] > 2.01 else None,
    lambda p: 2 * p["nu"] ** 2 * p["sigma2"] ** 2 / ((p["nu"] - 2) ** 2 * (p["nu"] - 4)) if p["nu"] > 4.02 else None,
    dict(nu=(2.5, 9), sigma2=(0.2, 9)))
add("StudentT", dict(mu=gen.real(100), sigma=P, nu=gen.pos(0.05, 1e6)), lambda x, p: ref.student(x, p["mu"], p["sigma"], p["nu"]), lambda x, p: True, XR,
    True, lambda p: p["mu"] if p["nu"] > 1.01 else None,
    lambda p: p["sigma"] ** 2 * p["nu"] / (p["nu"] - 2) if p["nu"] > 2.01 else None, dict(mu=(-5, 5), sigma=(0.2, 9), nu=(1.5, 9)))
add("Lomax", dict(alpha=PM, lam=PM), lambda x, p: ref.lomax(x, p["alpha"], p["lam"]), lambda x, p: x >= 0, XP, True,
    lambda p: p["lam"] / (p["alpha"] - 1) if p["alpha"] > 1.01 else None,
    lambda p: p["lam"] ** 2 * p["alpha"] / ((p["alpha"] - 1) ** 2 * (p["alpha"] - 2)) if p["alpha"] > 2.01 else None,
    dict(alpha=(1.5, 9), lam=(0.2, 9)))
add("CompoundGamma", dict(alpha=PM, beta=PM, lam=PM), lambda x, p: ref.compound_gamma(x, p["alpha"], p["beta"], p["lam"]),
    lambda x, p: x > 0, XP, True, None, None, dict(alpha=(0.2, 9), beta=(0.2, 9), lam=(0.2, 9)), methods=["pdf"])
XVM = st.floats(-3.1, 3.1)
add("VonMises", dict(mu=st.one_of(st.just(0.0), st.floats(-0.04, 0.04)), kappa=gen.pos(1e-2, 2000)),
    lambda x, p: ref.vonmises(x, p["mu"], p["kappa"]), lambda x, p: True, XVM, True, None, None,
    dict(mu=(-1.5, 1.5), kappa=(0.2, 9)), methods=["pdf", "cdf"])
add("LogNormal", dict(mu=gen.num(-5, 5), sigma=gen.pos(0.05, 5)), lambda x, p: ref.lognormal(x, p["mu"], p["sigma"]),
    lambda x, p: x > 0, XP, True, lambda p: mp.exp(p["mu"] + p["sigma"] ** 2 / 2),
    lambda p: (mp.exp(p["sigma"] ** 2) - 1) * mp.exp(2 * p["mu"] + p["sigma"] ** 2), dict(mu=(-2, 2), sigma=(0.2, 2)))
add("Weibull", dict(beta=gen.pos(0.2, 10), theta=gen.pos(1e-6, 1e4)), lambda x, p: ref.weibull(x, p["beta"], p["theta"]),
    lambda x, p: x > 0, st.one_of(gen.pos(1e-3, 100), st.just(-1.0)), True,
    lambda p: p["theta"] ** (1 / p["beta"]) * mp.gamma(1 + 1 / p["beta"]),
    lambda p: p["theta"] ** (2 / p["beta"]) * (mp.gamma(1 + 2 / p["beta"]) - mp.gamma(1 + 1 / p["beta"]) ** 2),
    dict(beta=(0.5, 5), theta=(0.2, 9)))
BY_KEY = {d.key: d for d in DISTS}
