"""Every elementwise computation of the package: name -> (domains, function, observed fields).

A domain is (lo, hi) or (lo, hi, True) for integers; every combination of values inside the domains is valid,
so arguments can be given any broadcastable shapes.
"""
from pbt import models, preds


class Op:
    def __init__(self, name, dom, fn, fields, full=True, elem=None):
        self.name, self.dom, self.fn, self.fields, self.full = name, dom, fn, fields, full


OPS = []


def D():
    import conjugate.distributions as d

    return d


def F():
    import conjugate.models as f

    return f


def _model(m):
    def fn(v):
        prior = getattr(D(), m.prior)(**{k: v[k] for k in m.fields})
        kw = {k.split(".")[-1]: v[k] for k in v if k not in m.fields}
        return getattr(F(), m.fn)(prior=prior, **kw, **m.consts)

    return fn


for m in models.MODELS:
    OPS.append(Op("model:" + m.key, m.vec, _model(m), sorted(m.fields)))


def _pred(p):
    def fn(v):
        d = getattr(D(), p.dist)(**{k: v[k] for k in p.fields})
        kw = {k.split(".")[-1]: v[k] for k in v if k not in p.fields}
        return getattr(F(), p.name)(distribution=d, **kw, **p.consts)

    return fn


PF = {
    "binomial_beta_predictive": ["n", "alpha", "beta"], "bernoulli_beta_predictive": ["n", "alpha", "beta"],
    "negative_binomial_beta_predictive": ["n", "alpha", "beta"], "geometric_beta_predictive": ["alpha", "beta"],
    "poisson_gamma_predictive": ["n", "p"], "exponential_gamma_predictive": ["alpha", "lam"],
    "gamma_known_shape_predictive": ["alpha", "beta", "lam"], "normal_known_variance_predictive": ["mu", "sigma"],
    "normal_known_precision_predictive": ["mu", "sigma"], "normal_known_mean_predictive": ["mu", "sigma", "nu"],
    "normal_predictive": ["mu", "sigma", "nu"], "normal_normal_inverse_gamma_predictive": ["mu", "sigma", "nu"],
}
for p in preds.PREDS:
    OPS.append(Op("pred:" + p.key, p.vec, _pred(p), PF[p.name]))


def two(a, b, **kw):
    return dict(a=a, b=b, **kw)


def op(name, dom, fn, fields, full=True):
    OPS.append(Op(name, dom, fn, fields, full))


# unnormalised families
CS = {"p": (0.1, 5), "q": (0.1, 5), "r": (0.1, 9), "s": (0.1, 9)}
op("model:gamma", {**CS, "x_prod": (0.1, 5), "x_total": (0.1, 9), "n": (1, 20, True)},
   lambda v: F().gamma(prior=D().GammaProportional(v["p"], v["q"], v["r"], v["s"]), x_prod=v["x_prod"], x_total=v["x_total"], n=v["n"]),
   ["p", "q", "r", "s"])
op("model:gamma_known_rate", {"a": (0.1, 5), "b": (0.1, 5), "c": (0.1, 9), "x_prod": (0.1, 5), "n": (1, 20, True), "beta": (0.1, 5)},
   lambda v: F().gamma_known_rate(prior=D().GammaKnownRateProportional(v["a"], v["b"], v["c"]), x_prod=v["x_prod"], n=v["n"], beta=v["beta"]),
   ["a", "b", "c"], full=False)
op("model:beta", {"p": (0.1, 1), "q": (0.1, 1), "k": (0.1, 9), "x_prod": (0.1, 1), "one_minus_x_prod": (0.1, 1), "n": (1, 20, True)},
   lambda v: F().beta(prior=D().BetaProportional(v["p"], v["q"], v["k"]), x_prod=v["x_prod"], one_minus_x_prod=v["one_minus_x_prod"], n=v["n"]),
   ["p", "q", "k"])
op("model:von_mises_known_concentration",
   {"a": (0.1, 5), "b": (-3, 3), "cos_total": (-5, 5), "sin_total": (-5, 5), "n": (1, 20, True), "kappa": (0.1, 5)},
   lambda v: F().von_mises_known_concentration(prior=D().VonMisesKnownConcentration(v["a"], v["b"]), cos_total=v["cos_total"],
                                               sin_total=v["sin_total"], n=v["n"], kappa=v["kappa"]), ["a", "b"], full=False)
op("model:von_mises_known_direction", {"c": (0.1, 5), "r": (-3, 3), "centered_cos_total": (-5, 5), "n": (1, 20, True)},
   lambda v: F().von_mises_known_direction(prior=D().VonMisesKnownDirectionProportional(v["c"], v["r"]),
                                           centered_cos_total=v["centered_cos_total"], n=v["n"]), ["c", "r"])
op("model:hypergeometric_beta_binomial", {"N": (60, 90, True), "alpha": (0.1, 20), "beta": (0.1, 20), "n": (20, 60, True), "x_total": (0, 20, True)},
   lambda v: F().hypergeometric_beta_binomial(prior=D().BetaBinomial(n=v["N"], alpha=v["alpha"], beta=v["beta"]), n=v["n"], x_total=v["x_total"]),
   ["n", "alpha", "beta"], full=False)


class Val:
    """a plain value observed as field 'v'"""

    def __init__(self, v):
        self.v = v


AB = {"alpha": (0.2, 9), "beta": (0.2, 9)}
op("curve:gamma", {**CS, **AB}, lambda v: Val(D().GammaProportional(v["p"], v["q"], v["r"], v["s"]).approx_log_likelihood(v["alpha"], v["beta"])), ["v"])
op("curve:gamma_known_rate", {"a": (0.1, 5), "b": (0.1, 5), "c": (0.1, 9), **AB},
   lambda v: Val(D().GammaKnownRateProportional(v["a"], v["b"], v["c"]).approx_log_likelihood(v["alpha"], v["beta"])), ["v"])
op("curve:beta", {"p": (0.1, 1), "q": (0.1, 1), "k": (0.1, 9), **AB},
   lambda v: Val(D().BetaProportional(v["p"], v["q"], v["k"]).approx_log_likelihood(v["alpha"], v["beta"])), ["v"])
op("curve:von_mises_known_concentration", {"a": (0.1, 9), "b": (-3, 3), "mu": (-3, 3)},
   lambda v: Val(D().VonMisesKnownConcentration(v["a"], v["b"]).log_likelihood(v["mu"])), ["v"])
op("curve:von_mises_known_direction", {"c": (0.1, 9), "r": (-3, 3), "kappa": (0.1, 9)},
   lambda v: Val(D().VonMisesKnownDirectionProportional(v["c"], v["r"]).approx_log_likelihood(v["kappa"])), ["v"])

# arithmetic
for side in ("left", "right"):
    def _mul(cls, names, side=side):
        def fn(v):
            d = getattr(D(), cls)(**{k: v[k] for k in names})
            return d * v["k"] if side == "left" else v["k"] * d
        return fn

    # an array on the left is numpy's own operator first, so only the distribution-first form is elementwise for arrays
    if side == "right":
        continue
    op("mul:Exponential", {"lam": (0.2, 9), "k": (1, 9, True)}, _mul("Exponential", ["lam"]), ["alpha", "beta"])
    op("mul:Gamma", {**AB, "k": (0.2, 9)}, _mul("Gamma", ["alpha", "beta"]), ["alpha", "beta"])
    op("mul:NegativeBinomial", {"n": (1, 9), "p": (0.1, 0.9), "k": (1, 9, True)}, _mul("NegativeBinomial", ["n", "p"]), ["n", "p"])
    op("mul:Poisson", {"lam": (0.2, 9), "k": (0.2, 9)}, _mul("Poisson", ["lam"]), ["lam"])
    op("mul:Normal", {"mu": (-5, 5), "sigma": (0.2, 9), "k": (0.2, 9)}, _mul("Normal", ["mu", "sigma"]), ["mu", "sigma"])
op("add:Poisson", {"l1": (0.2, 9), "l2": (0.2, 9)}, lambda v: D().Poisson(v["l1"]) + D().Poisson(v["l2"]), ["lam"])
# constructors and conversions
op("ctor:Beta.from_mean", {"mean": (0.05, 0.95), "alpha": (0.2, 9)}, lambda v: D().Beta.from_mean(v["mean"], v["alpha"]), ["alpha", "beta"])
op("ctor:Beta.from_successes_and_failures", {"s": (0, 9, True), "f": (0, 9, True)},
   lambda v: D().Beta.from_successes_and_failures(v["s"], v["f"]), ["alpha", "beta"])
op("ctor:Gamma.from_occurrences_in_intervals", {"o": (1, 9, True), "i": (1, 9, True)},
   lambda v: D().Gamma.from_occurrences_in_intervals(v["o"], v["i"]), ["alpha", "beta"])
op("ctor:Normal.from_mean_and_variance", {"m": (-5, 5), "v": (0.2, 9)}, lambda v: D().Normal.from_mean_and_variance(v["m"], v["v"]), ["mu", "sigma"])
op("ctor:Normal.from_mean_and_precision", {"m": (-5, 5), "v": (0.2, 9)}, lambda v: D().Normal.from_mean_and_precision(v["m"], v["v"]), ["mu", "sigma"])
op("conv:to_inverse_gamma", {"nu": (0.2, 9), "s": (0.2, 9)}, lambda v: D().ScaledInverseChiSquared(v["nu"], v["s"]).to_inverse_gamma(), ["alpha", "beta"])
op("conv:from_inverse_gamma", AB, lambda v: D().ScaledInverseChiSquared.from_inverse_gamma(D().InverseGamma(v["alpha"], v["beta"])), ["nu", "sigma2"])

BY_NAME = {o.name: o for o in OPS}
