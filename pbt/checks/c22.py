"""C22: end-to-end calibration: parameter from the prior, data from the likelihood, posterior and predictive probability uniform.

Given the data the posterior probability of the true parameter is uniform, so it is also independent of any summary of the
data: adding the rank of that summary modulo one must leave it uniform.
"""
import math

import numpy as np
import scipy.special as sc
import scipy.stats as ss
from hypothesis import strategies as st

from pbt import cdfs, gen, mvmodels as mv
from pbt.checks.c13 import tri, uniform
from pbt.checks.c20 import D, F
from pbt.core import expect, sub, sut

DOM = {"ab": gen.num(0.5, 20), "big": gen.num(1.2, 20), "sc": gen.num(0.2, 10), "r": st.integers(1, 6), "n": st.integers(1, 8), "mu": gen.num(-10, 10), "shape": gen.num(0.5, 6), "exp": gen.num(0.3, 3), "four": gen.num(4, 20), "unit": gen.num(0.2, 3)}


class Pair:
    def __init__(self, key, fn, cls, fields, known, lik, stats, pred=None, pk=None, theta=None, kind="pmf", consts=None, post=None, top=None):
        self.key, self.fn, self.cls, self.fields, self.known, self.lik, self.stats = key, fn, cls, fields, known, lik, stats
        self.pred, self.pk, self.theta, self.kind, self.consts = pred, pk or (lambda k: {}), theta, kind, consts or {}
        self.top = top or (lambda k: 400)


AB = dict(alpha="ab", beta="ab")
BIG = dict(alpha="big", beta="ab")
tot = lambda x: x.sum(axis=0)
PAIRS = [
    Pair("binomial", "binomial_beta", "Beta", AB, dict(n="n"), lambda k, t: D().Binomial(k["n"], t), lambda x, k: dict(n=k["n"] * len(x), x=tot(x)),
         "binomial_beta_predictive", lambda k: dict(n=k["n"]), top=lambda k: k["n"]),
    Pair("negative-binomial", "negative_binomial_beta", "Beta", BIG, dict(r="r"), lambda k, t: D().NegativeBinomial(k["r"], t), lambda x, k: dict(n=len(x), r=k["r"], x=tot(x)),
         "negative_binomial_beta_predictive", lambda k: dict(r=k["r"])),
    Pair("geometric-one", "geometric_beta", "Beta", BIG, {}, lambda k, t: D().Geometric(t), lambda x, k: dict(x_total=tot(x), n=len(x)), "geometric_beta_predictive"),
    Pair("geometric-zero", "geometric_beta", "Beta", BIG, {}, lambda k, t: D().Geometric(t, one_start=False), lambda x, k: dict(x_total=tot(x), n=len(x), one_start=False),
         "geometric_beta_predictive", lambda k: dict(one_start=False)),
    Pair("poisson", "poisson_gamma", "Gamma", dict(alpha="ab", beta="sc"), {}, lambda k, t: D().Poisson(t), lambda x, k: dict(x_total=tot(x), n=len(x)), "poisson_gamma_predictive", kind="cdf"),
    Pair("exponential", "exponential_gamma", "Gamma", dict(alpha="big", beta="sc"), {}, lambda k, t: D().Exponential(t), lambda x, k: dict(x_total=tot(x), n=len(x)), "exponential_gamma_predictive", kind="cdf"),
    Pair("gamma-known-shape", "gamma_known_shape", "Gamma", dict(alpha="big", beta="sc"), dict(alpha="shape"), lambda k, t: D().Gamma(k["alpha"], t), lambda x, k: dict(x_total=tot(x), n=len(x), alpha=k["alpha"]),
         "gamma_known_shape_predictive", lambda k: dict(alpha=k["alpha"]), kind="pdf"),
    Pair("inverse-gamma-known", "inverse_gamma_known_rate", "Gamma", dict(alpha="big", beta="sc"), dict(alpha="shape"), lambda k, t: D().InverseGamma(k["alpha"], t),
         lambda x, k: dict(reciprocal_x_total=tot(1 / x), n=len(x), alpha=k["alpha"])),
    Pair("normal-known-variance", "normal_known_variance", "Normal", dict(mu="mu", sigma="sc"), dict(var="sc"), lambda k, t: D().Normal.from_mean_and_variance(t, k["var"]),
         lambda x, k: dict(x_total=tot(x), n=len(x), var=k["var"]), "normal_known_variance_predictive", lambda k: dict(var=k["var"]), kind="cdf"),
    Pair("normal-known-precision", "normal_known_precision", "Normal", dict(mu="mu", sigma="sc"), dict(precision="sc"), lambda k, t: D().Normal.from_mean_and_precision(t, k["precision"]),
         lambda x, k: dict(x_total=tot(x), n=len(x), precision=k["precision"]), "normal_known_precision_predictive", lambda k: dict(precision=k["precision"]), kind="cdf"),
    Pair("normal-known-mean-ig", "normal_known_mean", "InverseGamma", dict(alpha="big", beta="sc"), dict(mu="mu"), lambda k, t: D().Normal.from_mean_and_variance(k["mu"], t),
         lambda x, k: dict(x_total=tot(x), x2_total=tot(x**2), n=len(x), mu=k["mu"]), "normal_known_mean_predictive", lambda k: dict(mu=k["mu"]), kind="cdf"),
    Pair("normal-known-mean-sics", "normal_known_mean", "ScaledInverseChiSquared", dict(nu="big", sigma2="sc"), dict(mu="mu"), lambda k, t: D().Normal.from_mean_and_variance(k["mu"], t),
         lambda x, k: dict(x_total=tot(x), x2_total=tot(x**2), n=len(x), mu=k["mu"]), "normal_known_mean_predictive", lambda k: dict(mu=k["mu"]), kind="cdf"),
    Pair("uniform", "uniform_pareto", "Pareto", dict(x_m="sc", alpha="big"), {}, lambda k, t: D().Uniform(np.zeros_like(t), t), lambda x, k: dict(x_max=x.max(axis=0, initial=0), n=len(x), max_fn=np.maximum)),
    Pair("pareto", "pareto_gamma", "Gamma", dict(alpha="four", beta="unit"), dict(x_m="sc"), lambda k, t: D().Pareto(k["x_m"], t), lambda x, k: dict(n=len(x), ln_x_total=tot(np.log(x)), x_m=k["x_m"])),
    Pair("weibull", "weibull_inverse_gamma_known_shape", "InverseGamma", dict(alpha="big", beta="sc"), dict(beta="exp"), lambda k, t: D().Weibull(k["beta"], t),
         lambda x, k: dict(n=len(x), x_beta_total=tot(x ** k["beta"]))),
]


def case_st(p):
    return st.fixed_dictionaries({"f": st.fixed_dictionaries({k: DOM[v] for k, v in p.fields.items()}), "k": st.fixed_dictionaries({k: DOM[v] for k, v in p.known.items()}),
                                  "n": st.integers(0, 6), "seed": gen.SEEDS})


def judge(us, s, what):
    """us: probabilities given the data, s: (M,) summary of the data"""
    for name, u in us.items():
        w = "%s: %s" % (what, name)
        uniform(u, w)
        if s is not None and len(np.unique(s)) > 5:
            r = ss.rankdata(s) / (len(s) + 1)
            uniform((u + r) % 1, w + " (given the data)")
            uniform((u - r) % 1, w + " (given the data)")
            uniform((u + 2 * r) % 1, w + " (given the data)")


def table(dist, top):
    """cumulative sums of the mass function"""
    k = np.arange(0, top + 1)
    return np.cumsum(np.asarray(dist.pmf(k[:, None])), axis=0)


def pit(dist, x, kind, top, rng):
    """uniform transform of x under dist (randomised at atoms)"""
    v = rng.uniform(size=len(x))
    x = np.asarray(x)
    if kind == "cdf":
        hi = np.asarray(dist.cdf(x), float)
        lo = np.asarray(dist.cdf(x - 1), float) if x.dtype.kind in "iu" else hi
        return lo + v * (hi - lo)
    if kind == "pmf":
        t = table(dist, top)
        t = np.broadcast_to(t, (top + 1, len(x)))
        expect(bool(np.all(np.abs(np.minimum(t[-1], 1) - t[-1]) < 1e-9)), "mass sums to %r", float(t[-1].max()))
        c = np.arange(len(x))
        xi = np.minimum(x, top + 1).astype(int)
        full = np.vstack([np.zeros(len(x)), t, np.ones(len(x))])  # everything above top is one atom
        return full[xi, c] + v * (full[xi + 1, c] - full[xi, c])
    # density only: integrate on a logarithmic grid
    a = np.maximum(np.asarray(dist.kwds["a"] if getattr(dist, "kwds", {}).get("a") is not None else 0.5, float), 0.5)
    L = 30 / 0.5
    g = np.linspace(-L, 0, 3001)[:, None] + np.log(x)
    y = np.asarray(dist.pdf(np.exp(g))) * np.exp(g)
    return np.clip(((y[1:] + y[:-1]) / 2).sum(axis=0) * (L / 3000), 0, 1)


M = 3000


def mk(p):
    def check(c, rec):
        rng = np.random.default_rng(c["seed"])
        rs = np.random.RandomState(c["seed"] % 2**32)
        m = M // 6 if p.kind == "pdf" else M
        prior = getattr(D(), p.cls)(**c["f"])
        t = np.asarray(sut(prior.dist.rvs, size=m, random_state=rs))
        n = c["n"]
        lik = sut(p.lik, c["k"], t)
        x = np.asarray(sut(lik.dist.rvs, size=(n + 1, m), random_state=rs))
        data, new = x[:n], x[n]
        post = sut(getattr(F(), p.fn), prior=prior, **p.stats(data, c["k"]))
        us = {"posterior at the true parameter": np.asarray(sut(post.dist.cdf, t), float)}
        s = tot(np.log1p(np.abs(data))) if n else None
        if p.pred:
            pd = sut(getattr(F(), p.pred), distribution=post, **p.pk(c["k"]))
            u = pit(pd.dist, new, p.kind, p.top(c["k"]), rng)
            us["predictive at new data"] = np.broadcast_to(u, (m,))
        judge(us, s, "%s%r%r n=%d" % (p.key, c["f"], c["k"], n))
        rec.nontrivial(n > 0)
        rec.label("n=%d" % n)

    return check


for p in PAIRS:
    sub("C22", "calibration-" + p.key, case_st(p), quick=25, thorough=600, rule="at least one observation")(mk(p))


# ------------------------------------------------------------------ joint normal models
NIGS = st.fixed_dictionaries(dict(mu=DOM["mu"], nu=DOM["sc"], a=DOM["big"], b=DOM["sc"], n=st.integers(0, 6), seed=gen.SEEDS, cls=st.sampled_from(["NormalInverseGamma", "NormalGamma"]), logx=st.booleans()))


@sub("C22", "calibration-joint-normal", NIGS, quick=60, thorough=1500, rule="at least one observation")
def joint(c, rec):
    rs = np.random.RandomState(c["seed"] % 2**32)
    nu = "nu" if c["cls"] == "NormalInverseGamma" else "lam"
    prior = getattr(D(), c["cls"])(**{"mu": c["mu"], nu: c["nu"], "alpha": c["a"], "beta": c["b"]})
    mean, var = sut(prior.sample_mean, size=M, return_variance=True, random_state=rs)
    mean, var = np.asarray(mean).reshape(M), np.asarray(var).reshape(M)
    lik = D().LogNormal(mean / 5, np.sqrt(var) / 5) if c["logx"] else D().Normal.from_mean_and_variance(mean, var)
    x = np.asarray(sut(lik.dist.rvs, size=(c["n"] + 1, M), random_state=rs))
    z = np.log(x) * 5 if c["logx"] else x
    d, new, n = z[: c["n"]], z[c["n"]], c["n"]
    if c["logx"]:
        post = sut(F().log_normal, ln_x_total=tot(d), ln_x2_total=tot(d**2), n=n, prior=prior)
    else:
        post = sut(F().normal, x_total=tot(d), x2_total=tot(d**2), n=n, prior=prior)
    comp = post.inverse_gamma.dist.cdf(var) if nu == "nu" else post.gamma.dist.cdf(1 / var)
    k = getattr(post, nu)
    us = {"variance": np.asarray(comp, float), "mean given variance": sc.ndtr((mean - post.mu) / np.sqrt(var / k)),
          "mean": np.asarray(D().StudentT(mu=post.mu, sigma=np.sqrt(post.beta / (post.alpha * k)), nu=2 * post.alpha).dist.cdf(mean), float),
          "predictive at new data": np.asarray(sut(lambda: F().normal_predictive(distribution=post).dist.cdf(new)), float)}
    judge(us, tot(np.abs(d - c["mu"])) if n else None, "%r" % (c,))
    rec.nontrivial(n > 0)
    rec.label(c["cls"], "log-normal" if c["logx"] else "normal", "n=%d" % n)


# ------------------------------------------------------------------ categories
@sub("C22", "calibration-categories", st.fixed_dictionaries(dict(alpha=st.lists(gen.num(0.3, 10), min_size=2, max_size=5), n=st.integers(0, 15), m=st.integers(1, 3), seed=gen.SEEDS, fn=st.sampled_from(["categorical_dirichlet", "multinomial_dirichlet"]))),
     quick=24, thorough=400, rule="at least one observation")
def categories(c, rec):
    rng, rs = np.random.default_rng(c["seed"]), np.random.RandomState(c["seed"] % 2**32)
    prior = D().Dirichlet(np.array(c["alpha"], float))
    m, k = 400, len(c["alpha"])
    th = np.asarray(sut(prior.dist.rvs, size=m, random_state=rs))
    us, up, s = np.zeros((m, k)), np.zeros(m), np.zeros(m)
    # outcomes of m new draws in a fixed order
    grid = [g for g in np.ndindex(*([c["m"] + 1] * k)) if sum(g) == c["m"]]
    G = np.array(grid)
    for i in range(m):
        t = th[i] / th[i].sum()
        x = sut(D().Multinomial(c["n"], t).dist.rvs, size=1, random_state=rs)[0] if c["n"] else np.zeros(k, int)
        post = sut(getattr(F(), c["fn"]), x=x, prior=prior)
        a = np.asarray(post.alpha)
        us[i] = sc.betainc(a, a.sum() - a, t)
        pd = sut(getattr(F(), c["fn"] + "_predictive"), distribution=post, n=c["m"])
        cum = np.concatenate([[0], np.cumsum(np.asarray(sut(pd.dist.pmf, G)))])
        new = np.asarray(sut(D().Multinomial(c["m"], t).dist.rvs, size=1, random_state=rs))[0]
        j = grid.index(tuple(int(v) for v in new))
        up[i] = cum[j] + rng.uniform() * (cum[j + 1] - cum[j])
        s[i] = x[0] + 0.01 * x[-1]
    judge({**{"component %d" % j: us[:, j] for j in range(k)}, "predictive": up}, s if c["n"] else None, "%s%r" % (c["fn"], c))
    rec.nontrivial(c["n"] > 0)


# ------------------------------------------------------------------ directions
@sub("C22", "calibration-directions", st.fixed_dictionaries(dict(a=gen.num(0.05, 20), b=st.floats(0, 6.28), k=gen.num(0.1, 20), n=st.integers(0, 6), seed=gen.SEEDS)), quick=40, thorough=800, rule="at least one observation")
def directions(c, rec):
    rs = np.random.RandomState(c["seed"] % 2**32)
    prior = D().VonMisesKnownConcentration(a=c["a"], b=c["b"])
    wrap = lambda v: (v + np.pi) % (2 * np.pi) - np.pi
    mu = np.asarray(sut(D().VonMises(c["b"], c["a"]).dist.rvs, size=M, random_state=rs))
    x = np.asarray(sut(D().VonMises(mu, c["k"]).dist.rvs, size=(max(c["n"], 1), M), random_state=rs))[: c["n"]]
    if c["n"]:
        post = sut(F().von_mises_known_concentration, cos_total=np.cos(x).sum(axis=0), sin_total=np.sin(x).sum(axis=0), n=c["n"], kappa=c["k"], prior=prior)
    else:
        post = prior
    d = wrap(mu - post.b)
    # posterior as a grid of the documented curve, on the circle
    g = np.linspace(-np.pi, np.pi, 801)
    with np.errstate(all="ignore"):
        f = np.exp(np.asarray(sut(post.log_likelihood, (g[:, None] + np.atleast_1d(post.b)))))
    F_ = np.vstack([np.zeros(f.shape[1]), np.cumsum((f[1:] + f[:-1]) / 2, axis=0)])
    F_ = np.broadcast_to(F_ / F_[-1], (801, M))
    i = np.clip(((d + np.pi) / (2 * np.pi) * 800).astype(int), 0, 799)
    col = np.arange(M)
    w = (d - g[i]) / (g[1] - g[0])
    u = F_[i, col] * (1 - w) + F_[i + 1, col] * w
    judge({"posterior curve": np.clip(u, 0, 1), "posterior law": np.clip(np.asarray(sut(D().VonMises(0, post.a).dist.cdf, d), float), 0, 1) + 0 * d},
          np.cos(x).sum(axis=0) if c["n"] else None, "directions %r" % (c,))
    rec.nontrivial(c["n"] > 0)


# ------------------------------------------------------------------ unnormalised curves on a grid of parameter values
def grid_prior(logw):
    w = np.exp(logw - logw.max())
    return w / w.sum()


def discrete(prior_obj, model, curve, points, lik, stats, c, what, rec):
    """The prior restricted to a finite grid is an ordinary finite prior: Bayes' rule must hold exactly on it."""
    rng, rs = np.random.default_rng(c["seed"]), np.random.RandomState(c["seed"] % 2**32)
    m, n = 1500, c["n"]
    w0 = grid_prior(np.asarray(sut(curve, prior_obj, *points), float))
    i = rng.choice(len(w0), size=m, p=w0)
    true = [np.asarray(p)[i] for p in points]
    x = np.asarray(sut(lik(*true).dist.rvs, size=(n, m), random_state=rs)) if n else np.zeros((0, m))
    post = sut(model, **stats(x), prior=prior_obj) if n else prior_obj
    lw = np.asarray(sut(curve, post, *[np.asarray(p)[:, None] for p in points]), float)
    lw = np.broadcast_to(lw, (len(w0), m))
    W = np.exp(lw - lw.max(axis=0))
    W = np.cumsum(W, axis=0) / W.sum(axis=0)
    full = np.vstack([np.zeros(m), W])
    col = np.arange(m)
    u = full[i, col] + rng.uniform(size=m) * (full[i + 1, col] - full[i, col])
    judge({"posterior": np.clip(u, 0, 1)}, tot(x) if n else None, what)
    rec.nontrivial(n > 0)


G1 = st.fixed_dictionaries(dict(which=st.sampled_from(["gamma", "gamma_known_rate", "beta", "von_mises_known_direction"]), n=st.integers(0, 6), seed=gen.SEEDS, k=gen.num(0.5, 4), lo=gen.num(0.2, 1.0), hi=gen.num(3, 12), u=st.floats(0.1, 0.9), step=st.integers(6, 14)))


@sub("C22", "calibration-curves", G1, quick=60, thorough=1500, rule="at least one observation")
def curves(c, rec):
    k, w = c["k"], c["which"]
    ax = np.exp(np.linspace(np.log(c["lo"]), np.log(c["hi"]), c["step"]))
    if w == "gamma":
        A, B = [v.ravel() for v in np.meshgrid(ax, ax)]
        pr = D().GammaProportional(p=0.8 ** k, q=k * 1.2, r=k, s=k)
        discrete(pr, F().gamma, lambda o, a, b: o.approx_log_likelihood(a, b), [A, B], lambda a, b: D().Gamma(a, b), lambda x: dict(x_total=tot(x), x_prod=x.prod(axis=0), n=len(x)), c, "gamma%r" % c, rec)
    elif w == "gamma_known_rate":
        b = 0.3 + 3 * c["u"]
        pr = D().GammaKnownRateProportional(a=1.1 ** k, b=k, c=k)
        discrete(pr, lambda **q: F().gamma_known_rate(beta=b, **q), lambda o, a: o.approx_log_likelihood(a, b), [ax], lambda a: D().Gamma(a, b), lambda x: dict(x_prod=x.prod(axis=0), n=len(x)), c, "gamma_known_rate%r" % c, rec)
    elif w == "beta":
        ax = np.maximum(ax, 0.8) * np.exp(np.linspace(0, 1e-6, len(ax)))  # beta variates nearer to one than a double can tell are excluded
        A, B = [v.ravel() for v in np.meshgrid(ax, ax)]
        pr = D().BetaProportional(p=c["u"] ** k * 0.9, q=(1 - c["u"]) ** k * 0.9, k=k)
        discrete(pr, F().beta, lambda o, a, b: o.approx_log_likelihood(a, b), [A, B], lambda a, b: D().Beta(a, b), lambda x: dict(x_prod=x.prod(axis=0), one_minus_x_prod=(1 - x).prod(axis=0), n=len(x)), c, "beta%r" % c, rec)
    else:
        mu = c["u"] * 3
        pr = D().VonMisesKnownDirectionProportional(c=k, r=c["u"] * k * 0.9)
        discrete(pr, F().von_mises_known_direction, lambda o, q: o.approx_log_likelihood(q), [ax], lambda q: D().VonMises(mu, q), lambda x: dict(centered_cos_total=np.cos(x - mu).sum(axis=0), n=len(x)), c, "known direction%r" % c, rec)
    rec.label(w)


# ------------------------------------------------------------------ multivariate
@st.composite
def mvc(draw):
    name = draw(st.sampled_from(mv.ALL))
    p = draw(st.integers(1, 3))
    c = {"name": name, "p": p, "prior": draw(mv.prior_st(name, p)), "known": draw(mv.known_st(name, p)), "n": draw(st.integers(1, 6)), "seed": draw(gen.SEEDS)}
    f = c["prior"]
    if "nu" in f:
        f["nu"] = draw(gen.num(p + 1, 12))
    if "kappa" in f:
        f["kappa"] = draw(gen.num(0.2, 10))
    if "alpha" in f:
        f["alpha"], f["beta"] = draw(gen.num(1.2, 10)), draw(gen.num(0.2, 10))
    if name == "linear_regression":
        c["X"] = draw(gen.mat(gen.num(-4, 4), c["n"] + 1, p))
    return c


@sub("C22", "calibration-multivariate", mvc(), quick=60, thorough=900, rule="at least two dimensions")
def multivariate(c, rec):
    name, p, n = c["name"], c["p"], c["n"]
    rs = np.random.RandomState(c["seed"] % 2**32)
    if mv.cond(name, c["prior"], c["known"]) > 1e8:
        return
    prior = mv.make_prior(name, c["prior"])
    known = {k: np.array(v, float) for k, v in c["known"].items()}
    m = 500
    us, s = {}, np.zeros(m)
    e = np.ones(p) / math.sqrt(p)

    def put(k, i, v):
        us.setdefault(k, np.zeros(m))[i] = v

    if name in mv.MV[:2]:
        cov = known["cov"] if name == mv.MV[0] else np.linalg.inv(known["precision"])
        th = np.asarray(sut(prior.dist.rvs, size=m, random_state=rs)).reshape(m, p)
        for i in range(m):
            x = np.asarray(sut(D().MultivariateNormal(th[i], cov).dist.rvs, size=n + 1, random_state=rs)).reshape(n + 1, p)
            post = sut(getattr(F(), name), n=n, x_bar=x[:n].mean(axis=0), prior=prior, **known)
            d, S = th[i] - post.mu, np.asarray(post.cov)
            put("distance from the posterior mean", i, ss.chi2.cdf(d @ np.linalg.solve(S, d), p))
            put("projection", i, sc.ndtr(e @ d / math.sqrt(e @ S @ e)))
            w = sut(getattr(F(), name + "_predictive"), distribution=post, **known)
            d, S = x[n] - w.mu, np.asarray(w.cov)
            put("distance from the predictive mean", i, ss.chi2.cdf(d @ np.linalg.solve(S, d), p))
            s[i] = e @ x[:n].sum(axis=0)
    elif name in mv.MV[2:]:
        niw = name == mv.MV[3]
        if niw:
            mean, var = sut(prior.sample_mean, size=m, return_variance=True, random_state=rs)
            mean, var = np.asarray(mean).reshape(m, p), np.asarray(var).reshape(m, p, p)
        else:
            var = np.asarray(sut(prior.dist.rvs, size=m, random_state=rs)).reshape(m, p, p)
            mean = np.tile(known["mu"], (m, 1))
        for i in range(m):
            x = np.asarray(sut(D().MultivariateNormal(mean[i], (var[i] + var[i].T) / 2).dist.rvs, size=n + 1, random_state=rs)).reshape(n + 1, p)
            post = sut(getattr(F(), name), X=x[:n].copy(), prior=prior, **known)
            psi, nu = np.asarray(post.psi), float(post.nu)
            put("variance along a direction", i, ss.chi2.sf(e @ psi @ e / (e @ var[i] @ e), nu - p + 1))
            put("precision along a direction", i, ss.chi2.cdf((e @ np.linalg.solve(var[i], e)) / (e @ np.linalg.solve(psi, e)), nu))
            if niw:
                d, k = mean[i] - post.mu, float(post.kappa)
                put("distance of the mean", i, ss.chi2.cdf(k * d @ np.linalg.solve(var[i], d), p))
                put("distance of the mean, marginally", i, ss.f.cdf(k * (nu - p + 1) * d @ np.linalg.solve(psi, d) / p, p, nu - p + 1))
                w = sut(F().multivariate_normal_predictive, distribution=post)
                d = x[n] - w.mu
                put("predictive", i, ss.f.cdf(d @ np.linalg.solve(np.asarray(w.sigma), d) / p, p, float(w.nu)))
            s[i] = (x[:n] @ e).var()
    else:
        X = np.array(c["X"], float)
        coef, var = sut(prior.sample_beta, size=m, return_variance=True, random_state=rs)
        coef, var = np.asarray(coef).reshape(m, p), np.asarray(var).reshape(m)
        for i in range(m):
            y = np.asarray(sut(D().Normal.from_mean_and_variance(X @ coef[i], var[i]).dist.rvs, random_state=rs))
            post = sut(F().linear_regression, X=X[:n].copy(), y=y[:n].copy(), prior=prior)
            V = np.asarray(post.delta_inverse)
            put("variance", i, sut(lambda: float(post.inverse_gamma.dist.cdf(var[i]))))
            d = coef[i] - post.mu
            put("coefficients", i, ss.chi2.cdf(d @ np.linalg.solve(V, d) / var[i], p))
            put("projection", i, ss.t.cdf(e @ d / math.sqrt(e @ V @ e * post.beta / post.alpha), 2 * post.alpha))
            w = sut(F().linear_regression_predictive, distribution=post, X=X[n:].copy())
            put("predictive", i, ss.t.cdf((y[n] - np.asarray(w.mu)[0]) / math.sqrt(np.asarray(w.sigma)[0, 0]), float(w.nu)))
            s[i] = y[:n].sum()
    judge({k: np.clip(v, 0, 1) for k, v in us.items()}, s, "%r" % (c,))
    rec.nontrivial(p > 1)
    rec.label(name, "p=%d" % p)
