"""Reference cumulative functions and supports (double precision, from scipy.special only)."""
import math

import mpmath as mp
import numpy as np
import scipy.special as sc

from pbt.ref import M


def fl(p):
    return {k: float(v) for k, v in p.items()}


def disc(fn):
    """cdf of an integer variable from fn(k, p) for k = floor(x) >= 0"""
    def cdf(x, p):
        k = math.floor(x)
        return 0.0 if k < 0 else fn(k, p)
    return cdf


def bysum(d, lo):
    def cdf(x, p):
        t = mp.mpf(0)
        for k in range(lo, math.floor(x) + 1):
            l = d.logp(k, p)
            if l != -mp.inf:
                t += mp.exp(l)
        return float(t)
    return cdf


def upto1(v):
    return min(1.0, v)


CDF = {
    "Beta": lambda x, p: sc.betainc(p["alpha"], p["beta"], min(max(x, 0.0), 1.0)),
    "Binomial": disc(lambda k, p: 1.0 if k >= p["n"] else sc.betainc(p["n"] - k, k + 1, 1 - p["p"])),
    "Exponential": lambda x, p: -math.expm1(-p["lam"] * x) if x > 0 else 0.0,
    "Gamma": lambda x, p: sc.gammainc(p["alpha"], p["beta"] * x) if x > 0 else 0.0,
    "NegativeBinomial": disc(lambda k, p: sc.betainc(p["n"], k + 1, p["p"])),
    "Poisson": disc(lambda k, p: sc.gammaincc(k + 1, p["lam"])),
    "Geometric-1": lambda x, p: 0.0 if x < 1 else -math.expm1(math.floor(x) * math.log1p(-p["p"])),
    "Geometric-0": lambda x, p: 0.0 if x < 0 else -math.expm1((math.floor(x) + 1) * math.log1p(-p["p"])),
    "Normal": lambda x, p: sc.ndtr((x - p["mu"]) / p["sigma"]),
    "Uniform": lambda x, p: min(1.0, max(0.0, (x - p["low"]) / (p["high"] - p["low"]))),
    "Pareto": lambda x, p: 0.0 if x < p["x_m"] else -math.expm1(p["alpha"] * math.log(p["x_m"] / x)),
    "InverseGamma": lambda x, p: sc.gammaincc(p["alpha"], p["beta"] / x) if x > 0 else 0.0,
    "ScaledInverseChiSquared": lambda x, p: sc.gammaincc(p["nu"] / 2, p["nu"] * p["sigma2"] / 2 / x) if x > 0 else 0.0,
    "StudentT": lambda x, p: sc.stdtr(p["nu"], (x - p["mu"]) / p["sigma"]),
    "Lomax": lambda x, p: -math.expm1(-p["alpha"] * math.log1p(x / p["lam"])) if x > 0 else 0.0,
    "CompoundGamma": lambda x, p: sc.betainc(p["alpha"], p["beta"], x / (x + p["lam"])) if x > 0 else 0.0,
    "LogNormal": lambda x, p: sc.ndtr((math.log(x) - p["mu"]) / p["sigma"]) if x > 0 else 0.0,
    "Weibull": lambda x, p: -math.expm1(-(x ** p["beta"]) / p["theta"]) if x > 0 else 0.0,
}


def cdf(d, x, p):
    if d.key in CDF:
        return float(CDF[d.key](x, fl(p)))
    lo = 1 if d.key == "BetaGeometric-1" else 0
    return bysum(d, lo)(x, p)


INF = math.inf
SUPPORT = {
    "Beta": lambda p: (0, 1), "Binomial": lambda p: (0, p["n"]), "Exponential": lambda p: (0, INF), "Gamma": lambda p: (0, INF),
    "NegativeBinomial": lambda p: (0, INF), "Poisson": lambda p: (0, INF), "Geometric-1": lambda p: (1, INF), "Geometric-0": lambda p: (0, INF),
    "Hypergeometric": lambda p: (max(0, p["n"] - p["N"] + p["k"]), min(p["k"], p["n"])), "BetaBinomial": lambda p: (0, p["n"]),
    "BetaNegativeBinomial": lambda p: (0, INF), "Normal": lambda p: (-INF, INF), "Uniform": lambda p: (p["low"], p["high"]),
    "Pareto": lambda p: (p["x_m"], INF), "InverseGamma": lambda p: (0, INF), "ScaledInverseChiSquared": lambda p: (0, INF),
    "StudentT": lambda p: (-INF, INF), "Lomax": lambda p: (0, INF), "LogNormal": lambda p: (0, INF), "Weibull": lambda p: (0, INF),
}


def ks(sample, cdf_values):
    """two-sided KS p-value of sorted(sample) given cdf at the sorted sample (valid, conservative, for discrete laws when
    cdf_values are (left limits, values))"""
    n = len(sample)
    if isinstance(cdf_values, tuple):
        left, right = cdf_values
        # compare the empirical cdf with the true one just before and at every atom
        s = np.sort(sample)
        e_right = np.searchsorted(s, s, "right") / n
        e_left = np.searchsorted(s, s, "left") / n
        d = max(np.max(np.abs(e_right - right)), np.max(np.abs(e_left - left)))
    else:
        i = np.arange(1, n + 1)
        d = max(np.max(i / n - cdf_values), np.max(cdf_values - (i - 1) / n))
    return kolm(d, n)


def kolm(d, n):
    """upper bound of P(D_n >= d) (Dvoretzky-Kiefer-Wolfowitz with Massart's constant, valid for every n and every law)"""
    return min(1.0, 2 * math.exp(-2 * n * max(0.0, d) ** 2))


LIMIT = 1e-10  # a sample is rejected below this p-value
