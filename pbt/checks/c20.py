"""C20: equivalent formulations give identical inferences. Every side is computed by the code under test."""
import math
import warnings

import mpmath as mp
import numpy as np
from hypothesis import strategies as st

from pbt import gen, models, mvmodels as mv
from pbt.core import expect, sub, sut
from pbt.ref import M

P = gen.pos(1e-2, 1e4)
Q = gen.pos(1e-2, 1e3)
R = gen.real(100)


def F():
    import conjugate.models as m

    return m


def D():
    import conjugate.distributions as d

    return d


def eq(a, b, what, mag=0.0, rel=1e-11):
    a, b = np.asarray(a, float), np.asarray(b, float)
    expect(a.shape == b.shape or a.size == b.size == 1, "%s: shapes %r and %r", what, a.shape, b.shape)
    a, b = a.reshape(b.shape), b
    lim = rel * (np.maximum(np.abs(a), np.abs(b)) + mag)
    with np.errstate(invalid="ignore"):
        ok = (a == b) | (np.isfinite(a) & np.isfinite(b) & (np.abs(a - b) <= lim))
    expect(bool(np.all(ok)), "%s: %s in one formulation, %s in the other", what, a.tolist(), b.tolist())


def fields(a, b, names, what, mag=0.0, rel=1e-11):
    for n in names:
        m = mag.get(n, 0.0) if isinstance(mag, dict) else mag
        na, nb = n if isinstance(n, tuple) else (n, n)
        eq(getattr(a, na), getattr(b, nb), "%s.%s" % (what, na), m, rel)


def dens(a, b, what, tol=1e-8):
    """two arrays of densities or masses: equal, also outside the support"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    expect(a.shape == b.shape, "%s: shapes %r and %r", what, a.shape, b.shape)
    ok = (a == b) | (np.isfinite(a) & np.isfinite(b) & (np.abs(a - b) <= tol * np.maximum(np.abs(a), np.abs(b)))) | (np.maximum(a, b) < 1e-250)
    expect(bool(ok.all()), "%s: %s in one formulation, %s in the other", what, a.tolist(), b.tolist())


def tol(*vals):
    """relative accuracy that differences of log-gamma values of these sizes allow"""
    s = 20.0
    for v in vals:
        v = abs(float(v))
        s += v * (1 + abs(math.log(v + 1e-3))) + abs(math.log(v + 1e-6))
    return 1e-13 * s + 1e-11


def fd(**kw):
    return st.fixed_dictionaries(kw)


# ---------------------------------------------------------------- discrete
@sub("C20", "bernoulli-is-binomial-with-one-trial", fd(a=P, b=P, x=st.integers(0, 1), xs=st.lists(st.integers(-2, 3), min_size=1, max_size=5)), quick=120, rule="always")
def bern(c, rec):
    d = D().Beta(c["a"], c["b"])
    p = sut(F().bernoulli_beta, x=c["x"], prior=d)
    q = sut(F().binomial_beta, n=1, x=c["x"], prior=d)
    fields(p, q, ["alpha", "beta"], "posterior")
    u, v = sut(F().bernoulli_beta_predictive, distribution=d), sut(F().binomial_beta_predictive, n=1, distribution=d)
    fields(u, v, ["n", "alpha", "beta"], "predictive")
    xs = np.array(c["xs"])
    dens(sut(u.dist.pmf, xs), sut(v.dist.pmf, xs), "predictive pmf")
    rec.nontrivial()


@sub("C20", "categorical-multinomial", fd(alpha=st.lists(Q, min_size=2, max_size=6), seed=gen.SEEDS, n=gen.integer(1, 400)), quick=150, rule="more than one observation")
def catmult(c, rec):
    k, rng = len(c["alpha"]), np.random.default_rng(c["seed"])
    x = rng.multinomial(c["n"], rng.dirichlet(np.ones(k)))
    a = np.array(c["alpha"], float)
    d = D().Dirichlet(a)
    p, q = sut(F().categorical_dirichlet, x=x, prior=d), sut(F().multinomial_dirichlet, x=x, prior=d)
    fields(p, q, ["alpha"], "posterior")
    u, v = sut(F().categorical_dirichlet_predictive, distribution=d, n=c["n"]), sut(F().multinomial_dirichlet_predictive, distribution=d, n=c["n"])
    dens(sut(u.dist.pmf, x), sut(v.dist.pmf, x), "predictive pmf")
    u1, v1 = sut(F().categorical_dirichlet_predictive, distribution=p), sut(F().multinomial_dirichlet_predictive, distribution=q, n=1)
    e = np.eye(k, dtype=int)
    dens(sut(u1.dist.pmf, e), sut(v1.dist.pmf, e), "one-draw predictive")
    rec.nontrivial(c["n"] > 1)


@sub("C20", "two-classes-are-binomial", fd(a=Q, b=Q, n=gen.integer(1, 300), f=st.floats(0, 1)), quick=200, rule="both classes observed")
def twoclass(c, rec):
    n, x = c["n"], round(c["f"] * c["n"])
    xs = np.array([x, n - x])
    d, b = D().Dirichlet(np.array([c["a"], c["b"]], float)), D().Beta(c["a"], c["b"])
    q = sut(F().binomial_beta, n=n, x=x, prior=b)
    for fn in ("categorical_dirichlet", "multinomial_dirichlet"):
        p = sut(getattr(F(), fn), x=xs, prior=d)
        eq(p.alpha, np.array([q.alpha, q.beta]), "posterior of " + fn)
    v = sut(F().binomial_beta_predictive, n=n, distribution=b)
    for fn in ("categorical_dirichlet_predictive", "multinomial_dirichlet_predictive"):
        u = sut(getattr(F(), fn), distribution=d, n=n)
        dens(sut(u.dist.pmf, xs), sut(v.dist.pmf, x), "predictive of " + fn, tol(n, c["a"], c["b"]))
    one = sut(F().categorical_dirichlet_predictive, distribution=d)
    bp = sut(F().bernoulli_beta_predictive, distribution=b)
    dens([float(sut(one.dist.pmf, np.array([1, 0]))), float(sut(one.dist.pmf, np.array([0, 1])))], [float(sut(bp.dist.pmf, 1)), float(sut(bp.dist.pmf, 0))], "one-draw predictive", tol(c["a"], c["b"]))
    # and so do the distributions themselves
    t = c["a"] / (c["a"] + c["b"])
    dens(sut(D().Multinomial(n, np.array([t, 1 - t])).dist.pmf, xs), sut(D().Binomial(n, t).dist.pmf, x), "pmf of the likelihood", tol(n))
    eq(sut(D().Dirichlet(xs + 1.0).dist.logpdf, np.array([t, 1 - t])), sut(D().Beta(x + 1.0, n - x + 1.0).dist.logpdf, t), "log density", 10 * n, 1e-12)
    rec.nontrivial(0 < x < n)


@sub("C20", "geometric-starts-and-one-failure", fd(a=P, b=P, data=st.lists(gen.integer(1, 10**4), max_size=6), xs=st.lists(gen.integer(-1, 2000), min_size=1, max_size=5)), quick=200, rule="several observations")
def geometric(c, rec):
    d = D().Beta(c["a"], c["b"])
    tot, n = sum(c["data"]), len(c["data"])
    p1 = sut(F().geometric_beta, x_total=tot, n=n, prior=d)
    p1e = sut(F().geometric_beta, x_total=tot, n=n, prior=d, one_start=True)
    p0 = sut(F().geometric_beta, x_total=tot - n, n=n, prior=d, one_start=False)
    nb = sut(F().negative_binomial_beta, r=1, n=n, x=tot - n, prior=d)
    for q in (p1e, p0, nb):
        fields(p1, q, ["alpha", "beta"], "posterior", tot)
    xs = np.array(c["xs"])
    u1 = sut(F().geometric_beta_predictive, distribution=d)
    u0 = sut(F().geometric_beta_predictive, distribution=d, one_start=False)
    un = sut(F().negative_binomial_beta_predictive, r=1, distribution=d)
    t = tol(c["a"], c["b"], max(map(abs, c["xs"])))
    dens(sut(u1.dist.pmf, xs), sut(u0.dist.pmf, xs - 1), "predictive pmf, starts compared", t)
    dens(sut(u0.dist.pmf, xs), sut(un.dist.pmf, xs), "predictive pmf, geometric and negative binomial", t)
    th = c["a"] / (c["a"] + c["b"])
    dens(sut(D().Geometric(th).dist.pmf, xs), sut(D().Geometric(th, one_start=False).dist.pmf, xs - 1), "geometric starts", t)
    dens(sut(D().Geometric(th, one_start=False).dist.pmf, xs), sut(D().NegativeBinomial(1, th).dist.pmf, xs), "geometric and negative binomial", 1e-8)
    rec.nontrivial(n > 1)


# ---------------------------------------------------------------- rates
@st.composite
def posdata(draw, hi=1e3):
    return draw(st.lists(gen.pos(1e-3, hi), max_size=6))


@sub("C20", "exponential-gamma-weibull-pareto", fd(a=P, b=P, data=posdata(), xm=Q, xs=st.lists(gen.pos(1e-3, 1e3), min_size=1, max_size=5), k=Q), quick=250, rule="several observations")
def rates(c, rec):
    d = D().Gamma(c["a"], c["b"])
    tot, n = math.fsum(c["data"]), len(c["data"])
    e = sut(F().exponential_gamma, x_total=tot, n=n, prior=d)
    g = sut(F().gamma_known_shape, x_total=tot, n=n, alpha=1, prior=d)
    fields(e, g, ["alpha", "beta"], "exponential and gamma with unit shape")
    ig = D().InverseGamma(c["a"], c["b"])
    w = sut(F().weibull_inverse_gamma_known_shape, n=n, x_beta_total=tot, prior=ig)
    fields(e, w, ["alpha", "beta"], "exponential and Weibull with unit shape in mean form")
    expect(type(w).__name__ == "InverseGamma", "Weibull posterior is a %s", type(w).__name__)
    # a gamma rate is an inverse-gamma mean
    xs = np.array(c["xs"])
    with np.errstate(all="ignore"):
        eq(sut(e.dist.logpdf, 1 / xs), sut(w.dist.logpdf, xs) + 2 * np.log(xs), "log posterior density of the rate and of the mean", 100 + (c["a"] + n) * 20 + (c["b"] + tot) / xs, 1e-11)
    # reciprocals of inverse-gamma data are gamma data; logs of Pareto data are exponential
    i = sut(F().inverse_gamma_known_rate, reciprocal_x_total=tot, n=n, alpha=c["k"], prior=d)
    k = sut(F().gamma_known_shape, x_total=tot, n=n, alpha=c["k"], prior=d)
    fields(i, k, ["alpha", "beta"], "inverse gamma and gamma data")
    lx = math.log(c["xm"])
    pg = sut(F().pareto_gamma, n=n, ln_x_total=tot + n * lx, x_m=c["xm"], prior=d)
    fields(pg, e, ["alpha", "beta"], "Pareto data and exponential logs", {"beta": tot + n * abs(lx)})
    # predictives
    pe, pk = sut(F().exponential_gamma_predictive, distribution=d), sut(F().gamma_known_shape_predictive, alpha=1, distribution=d)
    dens(sut(pe.dist.pdf, xs), sut(pk.dist.pdf, xs), "predictive density", tol(c["a"], c["b"]))
    dens(sut(D().Exponential(c["k"]).dist.pdf, xs), sut(D().Gamma(1, c["k"]).dist.pdf, xs), "exponential and gamma with unit shape", 1e-9)
    dens(sut(D().Exponential(1 / c["k"]).dist.pdf, xs), sut(D().Weibull(1, c["k"]).dist.pdf, xs), "exponential and Weibull with unit shape", 1e-9)
    rec.nontrivial(n > 1)


# ---------------------------------------------------------------- normal
@st.composite
def realdata(draw, hi=100):
    return draw(st.lists(gen.real(hi), max_size=6))


def totals(x):
    return dict(x_total=math.fsum(x), n=len(x)), math.fsum(v * v for v in x), math.fsum(abs(v) for v in x)


@sub("C20", "precision-is-inverse-variance", fd(mu=R, sigma=gen.pos(1e-2, 1e3), v=gen.pos(1e-3, 1e4), data=realdata(), xs=st.lists(R, min_size=1, max_size=4)), quick=200, rule="at least one observation")
def prec(c, rec):
    d = D().Normal(c["mu"], c["sigma"])
    s, _, ab = totals(c["data"])
    p = sut(F().normal_known_variance, var=c["v"], prior=d, **s)
    q = sut(F().normal_known_precision, precision=1 / c["v"], prior=d, **s)
    fields(p, q, ["mu", "sigma"], "posterior", {"mu": abs(c["mu"]) + ab})
    u, v = sut(F().normal_known_variance_predictive, var=c["v"], distribution=p), sut(F().normal_known_precision_predictive, precision=1 / c["v"], distribution=q)
    fields(u, v, ["mu", "sigma"], "predictive", {"mu": abs(c["mu"]) + ab})
    rec.nontrivial(len(c["data"]))


@st.composite
def mvn_case(draw):
    p = draw(st.integers(1, 4))
    return {"p": p, "prior": draw(mv.prior_st(mv.MV[0], p)), "cov": draw(gen.spd(p)), "n": draw(gen.integer(0, 200)), "xb": draw(gen.vec(mv.E, p))}


@sub("C20", "multivariate-precision-is-inverse-covariance", mvn_case(), quick=150, rule="at least two dimensions and one observation")
def mvprec(c, rec):
    cov = np.array(c["cov"], float)
    k = np.linalg.cond(cov) * np.linalg.cond(np.array(c["prior"]["cov"], float))
    if k > 1e8:
        return
    d = mv.make_prior(mv.MV[0], c["prior"])
    xb = np.array(c["xb"], float)
    p = sut(F().multivariate_normal_known_covariance, n=c["n"], x_bar=xb, cov=cov, prior=d)
    q = sut(F().multivariate_normal_known_precision, n=c["n"], x_bar=xb, precision=np.linalg.inv(cov), prior=d)
    big = np.abs(xb).max() + np.abs(np.array(c["prior"]["mu"], float)).max()
    fields(p, q, ["mu", "cov"], "posterior", {"mu": k * big, "cov": k * np.abs(q.cov).max()}, 1e-12)
    u = sut(F().multivariate_normal_known_covariance_predictive, distribution=p, cov=cov)
    v = sut(F().multivariate_normal_known_precision_predictive, distribution=q, precision=np.linalg.inv(cov))
    fields(u, v, ["mu", "cov"], "predictive", {"mu": k * big, "cov": k * np.abs(v.cov).max()}, 1e-12)
    rec.nontrivial(c["p"] > 1 and c["n"])


@sub("C20", "inverse-gamma-and-scaled-inverse-chi-squared", fd(nu=P, s2=P, mu=R, data=realdata(), xs=st.lists(R, min_size=1, max_size=4)), quick=250, rule="at least one observation")
def variance(c, rec):
    s = D().ScaledInverseChiSquared(c["nu"], c["s2"])
    g = D().InverseGamma(c["nu"] / 2, c["nu"] * c["s2"] / 2)
    kw, x2, ab = totals(c["data"])
    p = sut(F().normal_known_mean, mu=c["mu"], x2_total=x2, prior=s, **kw)
    q = sut(F().normal_known_mean, mu=c["mu"], x2_total=x2, prior=g, **kw)
    expect(type(p).__name__ == "ScaledInverseChiSquared" and type(q).__name__ == "InverseGamma", "posteriors are %s and %s", type(p).__name__, type(q).__name__)
    mag = x2 + 2 * abs(c["mu"]) * ab + kw["n"] * c["mu"] ** 2
    eq(p.nu, 2 * q.alpha, "degrees of freedom")
    eq(p.nu * p.sigma2, 2 * q.beta, "scale", mag)
    if mag < 1e4 * float(q.beta):
        u, v = sut(F().normal_known_mean_predictive, mu=c["mu"], distribution=p), sut(F().normal_known_mean_predictive, mu=c["mu"], distribution=q)
        fields(u, v, ["mu", "nu", "sigma"], "predictive", mag / max(float(q.beta), 1e-9), 1e-10)
        xs = np.array(c["xs"])
        dens(sut(u.dist.pdf, xs), sut(v.dist.pdf, xs), "predictive density", 1e-6)
    # one-dimensional inverse Wishart
    if c["data"]:
        w = sut(F().multivariate_normal_known_mean, X=np.array(c["data"], float)[:, None], mu=np.array([c["mu"]]), prior=D().InverseWishart(c["nu"], np.array([[c["nu"] * c["s2"]]], float)))
        eq(w.nu, 2 * q.alpha, "degrees of freedom of the one-dimensional inverse Wishart")
        eq(np.asarray(w.psi).item(), 2 * q.beta, "scale of the one-dimensional inverse Wishart", mag)
    rec.nontrivial(len(c["data"]))


NIGF = dict(mu=R, nu=gen.pos(1e-2, 1e3), a=gen.pos(0.05, 1e3), b=gen.pos(1e-2, 1e4))


def nmag(c, x):
    kw, x2, ab = totals(x)
    m = (c["nu"] * abs(c["mu"]) + ab) / (c["nu"] + len(x))
    return {"mu": abs(c["mu"]) + ab, "beta": x2 + c["mu"] ** 2 * c["nu"] + m * m * (c["nu"] + len(x))}


@sub("C20", "joint-normal-formulations", fd(data=realdata(), xs=st.lists(R, min_size=1, max_size=4), **NIGF), quick=300, rule="at least one observation")
def joint(c, rec):
    """normal-inverse-gamma, normal-gamma, the deprecated names, log-normal, one-dimensional multivariate, intercept-only regression"""
    x = c["data"]
    kw, x2, ab = totals(x)
    n = kw["n"]
    mag = nmag(c, x)
    nig = D().NormalInverseGamma(mu=c["mu"], nu=c["nu"], alpha=c["a"], beta=c["b"])
    ng = D().NormalGamma(mu=c["mu"], lam=c["nu"], alpha=c["a"], beta=c["b"])
    p = sut(F().normal, x2_total=x2, prior=nig, **kw)
    q = sut(F().normal, x2_total=x2, prior=ng, **kw)
    expect(type(p).__name__ == "NormalInverseGamma" and type(q).__name__ == "NormalGamma", "posteriors are %s and %s", type(p).__name__, type(q).__name__)
    fields(p, q, ["mu", ("nu", "lam"), "alpha", "beta"], "two joint priors", mag)
    lkw = dict(ln_x_total=kw["x_total"], ln_x2_total=x2, n=n)
    for pr, ref, nm in ((nig, p, "nu"), (ng, q, "lam")):
        l = sut(F().log_normal, prior=pr, **lkw)
        expect(type(l) is type(ref), "log-normal posterior is a %s", type(l).__name__)
        fields(l, ref, ["mu", nm, "alpha", "beta"], "log-normal and normal on logs", mag)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        old = sut(F().normal_normal_inverse_gamma, x2_total=x2, prior=nig, **kw)
    expect(any(issubclass(i.category, DeprecationWarning) for i in w), "normal_normal_inverse_gamma gave no deprecation warning")
    fields(old, p, ["mu", "nu", "alpha", "beta"], "deprecated name", mag)
    # predictives of well-conditioned posteriors
    safe = float(p.beta) > 1e-6 * mag["beta"]
    xs = np.array(c["xs"])
    if safe:
        r = mag["beta"] / float(p.beta)
        u, v = sut(F().normal_predictive, distribution=p), sut(F().normal_predictive, distribution=q)
        fields(u, v, ["mu", "sigma", "nu"], "predictive", {"mu": mag["mu"], "sigma": r * float(u.sigma), "nu": 0}, 1e-10)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            uo = sut(F().normal_normal_inverse_gamma_predictive, distribution=p)
        expect(any(issubclass(i.category, DeprecationWarning) for i in w), "normal_normal_inverse_gamma_predictive gave no deprecation warning")
        fields(uo, u, ["mu", "sigma", "nu"], "predictive of the deprecated name")
    # intercept-only regression
    reg = D().NormalInverseGamma(mu=np.array([c["mu"]], float), delta_inverse=np.array([[1 / c["nu"]]]), alpha=c["a"], beta=c["b"])
    lr = sut(F().linear_regression, X=np.ones((n, 1)), y=np.array(x, float), prior=reg)
    eq(np.asarray(lr.mu).item(), p.mu, "intercept", mag["mu"])
    eq(1 / np.asarray(lr.delta_inverse).item(), p.nu, "precision of the intercept", 0, 1e-9)
    eq(lr.alpha, p.alpha, "alpha of the regression")
    eq(lr.beta, p.beta, "beta of the regression", mag["beta"])
    if safe:
        pl = sut(F().linear_regression_predictive, distribution=lr, X=np.ones((1, 1)))
        lp, up = np.array([float(sut(pl.dist.logpdf, np.array([t]))) for t in xs]), np.asarray(sut(u.dist.logpdf, xs))
        eq(lp, up, "log predictive density of intercept-only regression", 100 + float(p.alpha) * (10 + r), 1e-9)
    # one-dimensional multivariate normal
    if n:
        niw = D().NormalInverseWishart(mu=np.array([c["mu"]], float), kappa=c["nu"], nu=2 * c["a"], psi=np.array([[2 * c["b"]]], float))
        mvp = sut(F().multivariate_normal, X=np.array(x, float)[:, None], prior=niw)
        eq(np.asarray(mvp.mu).item(), p.mu, "mean of the one-dimensional multivariate", mag["mu"])
        eq(mvp.kappa, p.nu, "kappa")
        eq(mvp.nu, 2 * p.alpha, "degrees of freedom")
        eq(np.asarray(mvp.psi).item(), 2 * p.beta, "scale of the one-dimensional multivariate", mag["beta"])
        if safe:
            pm = sut(F().multivariate_normal_predictive, distribution=mvp)
            lp = np.array([float(sut(pm.dist.logpdf, np.array([t]))) for t in xs])
            eq(lp, up, "log predictive density of the one-dimensional multivariate", 100 + float(p.alpha) * (10 + r), 1e-9)
    rec.nontrivial(n)


@sub("C20", "one-dimensional-known-covariance", fd(mu=R, sigma=gen.pos(0.05, 100), v=gen.pos(0.01, 1e3), data=st.lists(gen.real(100), min_size=1, max_size=6), x=R), quick=150, rule="always")
def mv1(c, rec):
    x = c["data"]
    kw, _, ab = totals(x)
    n = len(x)
    p = sut(F().normal_known_variance, var=c["v"], prior=D().Normal(c["mu"], c["sigma"]), **kw)
    m = D().MultivariateNormal(np.array([c["mu"]], float), np.array([[c["sigma"] ** 2]]))
    q = sut(F().multivariate_normal_known_covariance, n=n, x_bar=np.array([kw["x_total"] / n]), cov=np.array([[c["v"]]], float), prior=m)
    eq(np.asarray(q.mu).item(), p.mu, "mean", abs(c["mu"]) + ab)
    eq(np.asarray(q.cov).item(), p.sigma**2, "variance", 0, 1e-10)
    u = sut(F().normal_known_variance_predictive, var=c["v"], distribution=p)
    w = sut(F().multivariate_normal_known_covariance_predictive, distribution=q, cov=np.array([[c["v"]]], float))
    z = (abs(c["x"] - u.mu) + abs(c["x"]) + ab) / u.sigma
    eq(sut(w.dist.logpdf, np.array([c["x"]])), sut(u.dist.logpdf, c["x"]), "log predictive density", 10 + z * z, 1e-10)
    # coordinate of a multivariate distribution
    one = sut(lambda: w[0])
    fields(one, u, ["mu", "sigma"], "coordinate", {"mu": abs(c["mu"]) + ab}, 1e-10)
    rec.nontrivial()


@st.composite
def reg_case(draw):
    """grouped design with indicator columns: every group is a separate normal location with a shared variance"""
    g = draw(st.integers(2, 3))
    return {"g": g, "mu": draw(gen.vec(mv.E, g)), "nu": draw(st.lists(gen.pos(0.05, 50), min_size=g, max_size=g)), "a": draw(gen.pos(0.1, 100)), "b": draw(gen.pos(0.1, 100)),
            "data": draw(st.lists(st.lists(mv.E, max_size=4), min_size=g, max_size=g))}


@sub("C20", "indicator-regression-is-separate-normals", reg_case(), quick=150, rule="at least two groups observed")
def indicators(c, rec):
    g = c["g"]
    X, y, beta, mags = [], [], c["b"], 0.0
    for j, v in enumerate(c["data"]):
        X += [[1.0 if i == j else 0.0 for i in range(g)]] * len(v)
        y += v
    n = len(y)
    prior = D().NormalInverseGamma(mu=np.array(c["mu"], float), delta_inverse=np.diag(1 / np.array(c["nu"], float)), alpha=c["a"], beta=c["b"])
    lr = sut(F().linear_regression, X=np.array(X, float).reshape(n, g), y=np.array(y, float), prior=prior)
    dpost = np.asarray(lr.delta_inverse)
    for j, v in enumerate(c["data"]):
        q = sut(F().normal, x_total=math.fsum(v), x2_total=math.fsum(t * t for t in v), n=len(v),
                prior=D().NormalInverseGamma(mu=c["mu"][j], nu=c["nu"][j], alpha=c["a"], beta=beta))
        m = nmag({"mu": c["mu"][j], "nu": c["nu"][j]}, v)
        eq(lr.mu[j], q.mu, "location of group %d" % j, m["mu"], 1e-10)
        eq(1 / dpost[j, j], q.nu, "precision of group %d" % j, 0, 1e-9)
        beta = float(q.beta)
        mags += m["beta"]
    expect(np.all(np.abs(dpost - np.diag(np.diag(dpost))) < 1e-12), "groups are correlated: %s", dpost.tolist())
    eq(lr.alpha, c["a"] + n / 2, "alpha")
    eq(lr.beta, beta, "beta", mags, 1e-10)
    rec.nontrivial(sum(1 for v in c["data"] if v) >= 2)


# ---------------------------------------------------------------- the same, for groups at once
def _grid(draw, s, g, r, ints):
    how = draw(st.sampled_from(["scalar", "row", "row", "column"]))
    if draw(st.booleans()):
        s = ints  # whole numbers, kept as an integer array half of the time
    k = {"scalar": 1, "row": g, "column": r}[how]
    v = draw(st.lists(s, min_size=k, max_size=k))
    kind = draw(st.sampled_from(["int", "float"])) if all(isinstance(x, int) for x in v) else "float"
    return [how, kind] + v


def _arr(v):
    how, kind, x = v[0], v[1], v[2:]
    if how == "scalar":
        return int(x[0]) if kind == "int" else float(x[0])
    a = np.array(x, dtype=int if kind == "int" else float)
    return a[:, None] if how == "column" else a


@st.composite
def gridcase(draw):
    g, r = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    pos, real = gen.pos(1e-2, 1e3), gen.real(50)
    c = {q: _grid(draw, pos, g, r, st.integers(1, 50)) for q in ("a", "b", "s", "v", "k", "nu")}
    c["mu"] = _grid(draw, real, g, r, st.integers(-20, 20))
    c["n"] = _grid(draw, st.integers(0, 40), g, r, st.integers(0, 40))
    c["xbar"] = _grid(draw, real, g, r, st.integers(-20, 20))
    c["spread"] = _grid(draw, gen.pos(1e-2, 100), g, r, st.integers(1, 50))
    return c


def law(a, b, names, what, mag=None, rel=1e-11):
    """parameters equal elementwise once broadcast"""
    for n in names:
        na, nb = n if isinstance(n, tuple) else (n, n)
        x, y = np.broadcast_arrays(np.asarray(getattr(a, na), float), np.asarray(getattr(b, nb), float))
        m = (mag or {}).get(nb, 0.0)
        bad = ~((np.abs(x - y) <= rel * (np.maximum(np.abs(x), np.abs(y)) + m)) & np.isfinite(x) & np.isfinite(y))
        expect(not bad.any(), "%s.%s: %s in one formulation, %s in the other", what, na, x.tolist(), y.tolist())


@sub("C20", "formulations-in-arrays", gridcase(), quick=600, thorough=12000, rule="an array argument", shards=2)
def grids(c, rec):
    a, b, s, v, k, nu, mu, n, xbar, spread = (_arr(c[q]) for q in ("a", "b", "s", "v", "k", "nu", "mu", "n", "xbar", "spread"))
    m = F()
    inv = lambda z: 1.0 / z if not isinstance(z, np.ndarray) else 1.0 / z.astype(float)
    # discrete
    be = D().Beta(a, b)
    x01 = (np.asarray(n) % 2)
    x01 = x01 if isinstance(n, np.ndarray) else int(x01)
    law(sut(m.bernoulli_beta, x=x01, prior=be), sut(m.binomial_beta, n=1, x=x01, prior=be), ["alpha", "beta"], "Bernoulli and binomial with one trial")
    law(sut(m.bernoulli_beta_predictive, distribution=be), sut(m.binomial_beta_predictive, n=1, distribution=be), ["n", "alpha", "beta"], "Bernoulli predictive")
    fails = np.asarray(n) * 3 + 1
    fails = fails if isinstance(n, np.ndarray) else int(fails)
    g1, g0 = sut(m.geometric_beta, x_total=fails + n, n=n, prior=be), sut(m.geometric_beta, x_total=fails, n=n, prior=be, one_start=False)
    law(g1, g0, ["alpha", "beta"], "geometric starts", {"beta": np.max(fails)})
    law(sut(m.negative_binomial_beta, r=1, n=n, x=fails, prior=be), g0, ["alpha", "beta"], "geometric and negative binomial with one success")
    # rates
    ga, ig = D().Gamma(a, b), D().InverseGamma(a, b)
    e = sut(m.exponential_gamma, x_total=s, n=n, prior=ga)
    law(sut(m.gamma_known_shape, x_total=s, n=n, alpha=1, prior=ga), e, ["alpha", "beta"], "gamma with unit shape")
    law(sut(m.weibull_inverse_gamma_known_shape, n=n, x_beta_total=s, prior=ig), e, ["alpha", "beta"], "Weibull with unit shape")
    law(sut(m.inverse_gamma_known_rate, reciprocal_x_total=s, n=n, alpha=k, prior=ga), sut(m.gamma_known_shape, x_total=s, n=n, alpha=k, prior=ga), ["alpha", "beta"], "inverse-gamma data")
    pg = sut(m.pareto_gamma, n=n, ln_x_total=s + n * np.log(k), x_m=k, prior=ga)
    law(pg, e, ["alpha", "beta"], "Pareto data", {"beta": np.max(np.abs(n * np.log(k)))})
    pe, pk = sut(m.exponential_gamma_predictive, distribution=ga), sut(m.gamma_known_shape_predictive, alpha=1, distribution=ga)
    law(pe, pk, [("alpha", "beta"), ("lam", "lam")], "exponential and unit-shape gamma predictives")
    p1, p2 = sut(m.poisson_gamma, x_total=fails, n=n, prior=ga), sut(m.gamma_known_shape, x_total=n, n=fails, alpha=1, prior=ga)
    law(p1, p2, ["alpha", "beta"], "Poisson counts and the waiting time for them")
    # normal
    no = D().Normal(mu, s)
    tot = n * xbar
    big = {"mu": np.max(np.abs(mu)) + np.max(np.abs(tot)) + 1}
    ref = sut(m.normal_known_variance, x_total=tot, n=n, var=inv(v), prior=no)
    law(sut(m.normal_known_precision, x_total=tot, n=n, precision=v, prior=no), ref, ["mu", "sigma"], "known precision and variance", big)
    law(sut(m.normal_known_precision_predictive, precision=v, distribution=no), sut(m.normal_known_variance_predictive, var=inv(v), distribution=no), ["mu", "sigma"], "predictives, known precision and variance")
    x2 = n * (1.0 * xbar**2 + spread)
    sq, iv = D().ScaledInverseChiSquared(nu, v), D().InverseGamma(nu / 2, nu * v / 2)
    kw = dict(x_total=tot, x2_total=x2, n=n)
    q1, q2 = sut(m.normal_known_mean, mu=mu, prior=sq, **kw), sut(m.normal_known_mean, mu=mu, prior=iv, **kw)
    mag = np.max(np.abs(x2)) + 2 * np.max(np.abs(mu)) * np.max(np.abs(tot)) + np.max(n) * np.max(np.abs(mu)) ** 2
    law(sut(q1.to_inverse_gamma), q2, ["alpha", "beta"], "known mean, both priors", {"beta": mag})
    law(sut(m.normal_known_mean_predictive, mu=mu, distribution=sq), sut(m.normal_known_mean_predictive, mu=mu, distribution=iv), ["mu", "sigma", "nu"], "known-mean predictives")
    ni, ng = D().NormalInverseGamma(mu=mu, nu=nu, alpha=a, beta=b), D().NormalGamma(mu=mu, lam=nu, alpha=a, beta=b)
    j1, j2 = sut(m.normal, prior=ni, **kw), sut(m.normal, prior=ng, **kw)
    nm = {"mu": big["mu"], "beta": mag + np.max(np.abs(nu)) * np.max(np.abs(mu)) ** 2 + np.max(np.abs(xbar)) ** 2 * (np.max(n) + np.max(nu))}
    law(j1, j2, ["mu", ("nu", "lam"), "alpha", "beta"], "joint normal, both priors", nm)
    l1, l2 = sut(m.log_normal, ln_x_total=tot, ln_x2_total=x2, n=n, prior=ni), sut(m.log_normal, ln_x_total=tot, ln_x2_total=x2, n=n, prior=ng)
    law(l1, j1, ["mu", "nu", "alpha", "beta"], "log-normal data", nm)
    law(l2, j2, ["mu", "lam", "alpha", "beta"], "log-normal data, normal-gamma prior", nm)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        law(sut(m.normal_normal_inverse_gamma, prior=ni, **kw), j1, ["mu", "nu", "alpha", "beta"], "deprecated name", nm)
        law(sut(m.normal_normal_inverse_gamma_predictive, distribution=ni), sut(m.normal_predictive, distribution=ni), ["mu", "sigma", "nu"], "deprecated predictive")
    law(sut(m.normal_predictive, distribution=ni), sut(m.normal_predictive, distribution=ng), ["mu", "sigma", "nu"], "joint normal predictives")
    rec.nontrivial(any(x[0] != "scalar" for x in c.values() if isinstance(x, list)))
    rec.label(*sorted({"%s %s" % (x[0], x[1]) for x in c.values() if isinstance(x, list)}))
