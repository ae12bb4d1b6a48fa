"""C21: inference commutes with relabelling, moving the origin, changing the units and changing the basis.

Each check runs the code twice, on a problem and on its transform, and compares the transform of one answer with the other.
"""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen, models, mvmodels as mv
from pbt.checks.c20 import D, F, P, Q, R, dens, eq, fd, fields, tol, totals
from pbt.core import expect, sub, sut

K = st.one_of(st.sampled_from([2.0, 0.5, 1024.0, 2.0**-10]), gen.pos(1e-3, 1e3), gen.pos(1e-9, 1e9), st.sampled_from([2.0**30, 2.0**-30]))
SH = st.one_of(gen.real(50), st.sampled_from([1.0, -2.0, 0.5, 100.0]))


# ---------------------------------------------------------------- labels
@sub("C21", "exchange-success-and-failure", fd(a=P, b=P, n=gen.integer(1, 2000), f=st.floats(0, 1), N=gen.integer(1, 50)), quick=200, rule="not its own mirror image")
def exchange(c, rec):
    n, x = c["n"], round(c["f"] * c["n"])
    d, e = D().Beta(c["a"], c["b"]), D().Beta(c["b"], c["a"])
    sw = [("alpha", "beta"), ("beta", "alpha")]
    fields(sut(F().binomial_beta, n=n, x=x, prior=d), sut(F().binomial_beta, n=n, x=n - x, prior=e), sw, "binomial posterior")
    b = x % 2
    fields(sut(F().bernoulli_beta, x=b, prior=d), sut(F().bernoulli_beta, x=1 - b, prior=e), sw, "bernoulli posterior")
    xs = np.array(sorted({0, x, n, n // 2, -1, n + 1}))
    u, v = sut(F().binomial_beta_predictive, n=n, distribution=d), sut(F().binomial_beta_predictive, n=n, distribution=e)
    t = tol(n, c["a"], c["b"])
    dens(sut(u.dist.pmf, xs), sut(v.dist.pmf, n - xs), "binomial predictive", t)
    u, v = sut(F().bernoulli_beta_predictive, distribution=d), sut(F().bernoulli_beta_predictive, distribution=e)
    dens(sut(u.dist.pmf, np.array([0, 1])), sut(v.dist.pmf, np.array([1, 0])), "bernoulli predictive", t)
    # number of failures before successes and successes before failures are different data, so only the mirrored density is compared
    th = np.array([0.2, 0.5, 0.7])
    eq(sut(d.dist.logpdf, th), sut(e.dist.logpdf, 1 - th), "beta log density", 100 + 3 * (c["a"] + c["b"]), 1e-10)
    # finite population: prior population size unchanged
    m = min(x, c["N"])
    p, q = D().BetaBinomial(c["N"], c["a"], c["b"]), D().BetaBinomial(c["N"], c["b"], c["a"])
    fields(sut(F().hypergeometric_beta_binomial, x_total=m, n=c["N"], prior=p), sut(F().hypergeometric_beta_binomial, x_total=c["N"] - m, n=c["N"], prior=q), sw + ["n"], "finite population posterior")
    # densities on the unit interval
    k = 1 + c["n"] % 7
    lo, hi = 0.3**k, 0.7**k
    fields(sut(F().beta, x_prod=lo, one_minus_x_prod=hi, n=k, prior=D().BetaProportional(p=0.5, q=0.25, k=2.0)),
           sut(F().beta, x_prod=hi, one_minus_x_prod=lo, n=k, prior=D().BetaProportional(p=0.25, q=0.5, k=2.0)), [("p", "q"), ("q", "p"), "k"], "beta likelihood posterior")
    rec.nontrivial(c["a"] != c["b"] or 2 * x != n)


@st.composite
def cat_case(draw):
    k = draw(st.integers(2, 6))
    return {"alpha": draw(st.lists(Q, min_size=k, max_size=k)), "x": draw(st.lists(gen.integer(0, 300), min_size=k, max_size=k)), "perm": draw(st.permutations(range(k))), "list": draw(st.booleans())}


@sub("C21", "permute-categories", cat_case(), quick=200, rule="the permutation changes the problem")
def categories(c, rec):
    pm = list(c["perm"])
    a, x = np.array(c["alpha"], float), np.array(c["x"])
    d, e = D().Dirichlet(a), D().Dirichlet(a[pm])
    n = max(int(x.sum()), 1)
    y = x if x.sum() else np.eye(len(x), dtype=int)[0]
    for fn in ("categorical_dirichlet", "multinomial_dirichlet"):
        p, q = sut(getattr(F(), fn), x=x, prior=d), sut(getattr(F(), fn), x=x[pm], prior=e)
        eq(np.asarray(p.alpha)[pm], q.alpha, "posterior of " + fn)
        u, v = sut(getattr(F(), fn + "_predictive"), distribution=d, n=n), sut(getattr(F(), fn + "_predictive"), distribution=e, n=n)
        dens(sut(u.dist.pmf, y), sut(v.dist.pmf, y[pm]), "predictive of " + fn, tol(n, *c["alpha"]))
    rec.nontrivial(not np.array_equal(a, a[pm]) or not np.array_equal(x, x[pm]))


# ---------------------------------------------------------------- units
@st.composite
def pos_case(draw):
    return {"a": draw(P), "b": draw(gen.pos(1e-2, 1e3)), "data": draw(st.lists(gen.pos(1e-2, 1e2), max_size=6)), "k": draw(K), "s": draw(gen.pos(0.1, 20)), "xm": draw(gen.pos(1e-2, 1e2)),
            "be": draw(gen.pos(0.3, 4)), "xs": draw(st.lists(gen.pos(1e-2, 1e2), min_size=1, max_size=4))}


@sub("C21", "units-of-positive-data", pos_case(), quick=300, rule="several observations and a unit other than one")
def units(c, rec):
    k, x, n = c["k"], c["data"], len(c["data"])
    y = [k * v for v in x]
    sx, sy = math.fsum(x), math.fsum(y)
    a, b, s = c["a"], c["b"], c["s"]
    g, h = D().Gamma(a, b), D().Gamma(a, k * b)

    def scaled(p, q, name, factor):
        eq(p.alpha, q.alpha, name + " shape")
        eq(np.asarray(p.beta) * factor, q.beta, name + " rate", factor * (b + sx))

    scaled(sut(F().exponential_gamma, x_total=sx, n=n, prior=g), sut(F().exponential_gamma, x_total=sy, n=n, prior=h), "exponential", k)
    scaled(sut(F().gamma_known_shape, x_total=sx, n=n, alpha=s, prior=g), sut(F().gamma_known_shape, x_total=sy, n=n, alpha=s, prior=h), "gamma, known shape", k)
    rx, ry = math.fsum(1 / v for v in x), math.fsum(1 / v for v in y)
    p = sut(F().inverse_gamma_known_rate, reciprocal_x_total=rx, n=n, alpha=s, prior=D().Gamma(a, b))
    q = sut(F().inverse_gamma_known_rate, reciprocal_x_total=ry, n=n, alpha=s, prior=D().Gamma(a, b / k))
    eq(p.alpha, q.alpha, "inverse gamma shape")
    eq(p.beta / k, q.beta, "inverse gamma rate", (b + rx) / k)
    # counts per exposure: measuring exposure in another unit
    tot = round(sx)
    scaled(sut(F().poisson_gamma, x_total=tot, n=n + 1, prior=g), sut(F().poisson_gamma, x_total=tot, n=(n + 1) * k, prior=h), "poisson", k)
    m = np.array([0, 1, 3, tot])
    dens(sut(sut(F().poisson_gamma_predictive, distribution=g, n=n + 1).dist.pmf, m), sut(sut(F().poisson_gamma_predictive, distribution=h, n=(n + 1) * k).dist.pmf, m), "poisson predictive", tol(a, tot) + 1e-9)
    # predictive densities
    xs = np.array(c["xs"])
    t = tol(a, s) * 10 + 1e-9
    with np.errstate(all="ignore"):
        dens(sut(sut(F().exponential_gamma_predictive, distribution=g).dist.pdf, xs), k * sut(sut(F().exponential_gamma_predictive, distribution=h).dist.pdf, k * xs), "exponential predictive", t)
        dens(sut(sut(F().gamma_known_shape_predictive, distribution=g, alpha=s).dist.pdf, xs), k * sut(sut(F().gamma_known_shape_predictive, distribution=h, alpha=s).dist.pdf, k * xs), "gamma predictive", t)
    # Pareto data and uniform data
    if x:
        p = sut(F().uniform_pareto, x_max=max(x), n=n, prior=D().Pareto(c["xm"], a))
        q = sut(F().uniform_pareto, x_max=max(y), n=n, prior=D().Pareto(k * c["xm"], a))
        eq(p.alpha, q.alpha, "uniform alpha")
        eq(k * p.x_m, q.x_m, "uniform x_m")
    z = [c["xm"] * (1 + v) for v in x]
    lx, ly = math.fsum(math.log(v) for v in z), math.fsum(math.log(k * v) for v in z)
    p, q = sut(F().pareto_gamma, n=n, ln_x_total=lx, x_m=c["xm"], prior=g), sut(F().pareto_gamma, n=n, ln_x_total=ly, x_m=k * c["xm"], prior=g)
    fields(p, q, ["alpha", "beta"], "Pareto posterior", {"beta": sum(abs(math.log(v)) + abs(math.log(k)) for v in z) + n * (abs(math.log(c["xm"])) + abs(math.log(k)))})
    # Weibull
    be, wb = c["be"], k ** c["be"]
    tx = math.fsum(v**be for v in x)
    p = sut(F().weibull_inverse_gamma_known_shape, n=n, x_beta_total=tx, prior=D().InverseGamma(a, b))
    q = sut(F().weibull_inverse_gamma_known_shape, n=n, x_beta_total=math.fsum(v**be for v in y), prior=D().InverseGamma(a, wb * b))
    eq(p.alpha, q.alpha, "Weibull alpha")
    eq(p.beta * wb, q.beta, "Weibull beta", wb * (b + tx))
    # log-normal: a unit shifts the logs, a power scales them
    lx = [math.log(v) for v in x]
    for cls, nu in (("NormalInverseGamma", "nu"), ("NormalGamma", "lam")):
        mk = lambda mu, beta: getattr(D(), cls)(**{"mu": mu, nu: b, "alpha": a, "beta": beta})
        ls = [v + math.log(k) for v in lx]
        call = lambda v, pr: sut(F().log_normal, ln_x_total=math.fsum(v), ln_x2_total=math.fsum(w * w for w in v), n=n, prior=pr)
        mag = math.fsum((abs(v) + abs(math.log(k)) + 1) ** 2 for v in lx) + (b + n) * (1 + abs(math.log(k)) + max([abs(v) for v in lx] or [0])) ** 2
        p, q = call(lx, mk(0.5, s)), call(ls, mk(0.5 + math.log(k), s))
        eq(p.mu + math.log(k), q.mu, "log-normal location", mag)
        fields(p, q, [nu, "alpha", "beta"], "log-normal posterior after a change of unit", mag)
        q = call([s * v for v in lx], mk(s * 0.5, s * s * s))
        eq(s * p.mu, q.mu, "log-normal location of powers", s * mag)
        eq(s * s * p.beta, q.beta, "log-normal scale of powers", s * s * mag)
    # gamma with unknown shape and with known rate: products and sums change with the unit
    kk = max(min(k, 8.0), 0.125)
    pr = float(np.prod(x)) if x else 1.0
    p = sut(F().gamma, x_total=sx, x_prod=pr, n=n, prior=D().GammaProportional(p=0.7, q=b, r=2.0, s=1.5))
    q = sut(F().gamma, x_total=kk * sx, x_prod=kk**n * pr, n=n, prior=D().GammaProportional(p=0.7 * kk**2.0, q=kk * b, r=2.0, s=1.5))
    fields(p, q, ["r", "s"], "gamma posterior")
    eq(np.asarray(p.p) * kk ** (n + 2.0), q.p, "product", 0, 1e-10)
    eq(kk * np.asarray(p.q), q.q, "sum", kk * (b + sx))
    p = sut(F().gamma_known_rate, x_prod=pr, n=n, beta=s, prior=D().GammaKnownRateProportional(a=0.7, b=2.0, c=2.0))
    q = sut(F().gamma_known_rate, x_prod=kk**n * pr, n=n, beta=s / kk, prior=D().GammaKnownRateProportional(a=0.7 * kk**2.0, b=2.0, c=2.0))
    fields(p, q, ["b", "c"], "gamma, known rate")
    eq(np.asarray(p.a) * kk ** (n + 2.0), q.a, "product", 0, 1e-10)
    al = np.array([0.5, 1.0, 2.5])
    # the same curve up to a constant, since rate and unit cancel
    eq(sut(p.approx_log_likelihood, al, s) - (n + 2) * math.log(kk), sut(q.approx_log_likelihood, al, s / kk), "log curve after a change of unit",
       200 + 10 * (n + 2) * (1 + abs(math.log(kk)) + abs(math.log(s)) + abs(math.log(pr))), 1e-11)
    rec.nontrivial(n > 1 and k != 1)


@st.composite
def real_case(draw):
    return {"mu": draw(R), "nu": draw(gen.pos(0.05, 100)), "a": draw(gen.pos(0.1, 100)), "b": draw(gen.pos(0.1, 1e3)), "sigma": draw(gen.pos(0.05, 100)), "v": draw(gen.pos(0.05, 100)),
            "data": draw(st.lists(R, max_size=6)), "sh": draw(SH), "k": draw(st.one_of(st.sampled_from([2.0, 0.5, -1.0, -4.0, 2.0**20, -(2.0**-20)]), gen.pos(1e-6, 1e6), gen.pos(0.05, 20), gen.pos(0.05, 20).map(lambda v: -v))), "xs": draw(st.lists(R, min_size=1, max_size=4))}


@sub("C21", "origin-and-units-of-real-data", real_case(), quick=400, rule="at least one observation and a transform that is not the identity")
def affine(c, rec):
    """y = k x + s, also with a negative k (reflection)"""
    k, s, x, n = c["k"], c["sh"], c["data"], len(c["data"])
    ak = abs(k)
    f = lambda v: k * v + s
    y = [f(v) for v in x]
    tx, ty = totals(x)[0], totals(y)[0]
    x2, y2 = math.fsum(v * v for v in x), math.fsum(v * v for v in y)
    big = max([abs(v) for v in y + [f(c["mu"]), s]] + [ak * abs(v) for v in x + [c["mu"]]] + [1e-3])  # magnitudes the sums run over, in the new unit
    m1, m2 = big * (n + 1), big * big * (n + 1 + c["nu"]) * 4
    xs = np.array(c["xs"])

    def predictive(u, v, what, safe=True):
        eq(k * np.asarray(u.mu) + s, v.mu, what + " location", m1)
        r = m2 / (float(v.sigma) ** 2) if safe else 0
        eq(ak * np.asarray(u.sigma), v.sigma, what + " scale", m2 / float(v.sigma))
        if hasattr(u, "nu"):
            eq(u.nu, v.nu, what + " degrees of freedom")
        z = (np.abs(xs) * ak + big) / float(v.sigma)
        if r < 1e6:
            eq(sut(u.dist.logpdf, xs) - math.log(ak), sut(v.dist.logpdf, f(xs)), what + " log density", 100 + (z * z * (1 if not hasattr(u, "nu") else 1)).max() * (1 + r) + (float(u.nu) if hasattr(u, "nu") else 1) * (10 + r), 1e-9)

    # known spread
    for fn, arg, t in (("normal_known_variance", "var", c["v"] * ak * ak), ("normal_known_precision", "precision", c["v"] / (ak * ak))):
        p = sut(getattr(F(), fn), prior=D().Normal(c["mu"], c["sigma"]), **{arg: c["v"]}, **tx)
        q = sut(getattr(F(), fn), prior=D().Normal(f(c["mu"]), ak * c["sigma"]), **{arg: t}, **ty)
        eq(k * p.mu + s, q.mu, fn + " location", m1)
        eq(ak * p.sigma, q.sigma, fn + " spread")
        predictive(sut(getattr(F(), fn + "_predictive"), distribution=p, **{arg: c["v"]}), sut(getattr(F(), fn + "_predictive"), distribution=q, **{arg: t}), fn + " predictive")
    # known mean
    for cls, flds, tr in (("InverseGamma", ("alpha", "beta"), lambda a, b: (a, b * ak * ak)), ("ScaledInverseChiSquared", ("nu", "sigma2"), lambda a, b: (a, b * ak * ak))):
        p = sut(F().normal_known_mean, mu=c["mu"], x2_total=x2, prior=getattr(D(), cls)(c["a"], c["b"]), **tx)
        q = sut(F().normal_known_mean, mu=f(c["mu"]), x2_total=y2, prior=getattr(D(), cls)(*tr(c["a"], c["b"])), **ty)
        eq(getattr(p, flds[0]), getattr(q, flds[0]), cls + " shape")
        eq(ak * ak * getattr(p, flds[1]), getattr(q, flds[1]), cls + " scale", m2)
        u, v = sut(F().normal_known_mean_predictive, mu=c["mu"], distribution=p), sut(F().normal_known_mean_predictive, mu=f(c["mu"]), distribution=q)
        if m2 < 1e6 * float(v.sigma) ** 2:
            predictive(u, v, "normal_known_mean predictive")
    # both unknown
    for cls, nu in (("NormalInverseGamma", "nu"), ("NormalGamma", "lam")):
        mk = lambda mu, b: getattr(D(), cls)(**{"mu": mu, nu: c["nu"], "alpha": c["a"], "beta": b})
        p = sut(F().normal, x2_total=x2, prior=mk(c["mu"], c["b"]), **tx)
        q = sut(F().normal, x2_total=y2, prior=mk(f(c["mu"]), ak * ak * c["b"]), **ty)
        eq(k * p.mu + s, q.mu, cls + " location", m1)
        eq(getattr(p, nu), getattr(q, nu), cls + " pseudo-observations")
        eq(p.alpha, q.alpha, cls + " shape")
        eq(ak * ak * p.beta, q.beta, cls + " scale", m2)
        if m2 < 1e6 * float(q.beta):
            predictive(sut(F().normal_predictive, distribution=p), sut(F().normal_predictive, distribution=q), cls + " predictive")
    rec.nontrivial(n and (k, s) != (1.0, 0.0))
    rec.label("reflected" if k < 0 else "kept")


@sub("C21", "rotate-directions", fd(a=gen.pos(0.01, 200), b=st.floats(-3.1, 3.1), data=st.lists(st.floats(-3.1, 3.1), min_size=1, max_size=6), k=gen.pos(0.05, 50), s=st.floats(-7, 7), mirror=st.booleans()), quick=200,
     rule="the direction is defined and the rotation is not the identity")
def rotate(c, rec):
    tr = (lambda v: -v + c["s"]) if c["mirror"] else (lambda v: v + c["s"])
    run = lambda b, x: sut(F().von_mises_known_concentration, cos_total=math.fsum(map(math.cos, x)), sin_total=math.fsum(map(math.sin, x)), n=len(x), kappa=c["k"], prior=D().VonMisesKnownConcentration(a=c["a"], b=b))
    p, q = run(c["b"], c["data"]), run(tr(c["b"]), [tr(v) for v in c["data"]])
    tot = c["a"] + c["k"] * len(c["data"])
    eq(p.a, q.a, "concentration", tot)
    if p.a > 1e-6 * tot:
        d = tr(float(p.b)) - float(q.b)
        expect(abs(math.remainder(d, 2 * math.pi)) < 1e-10 * tot / p.a, "direction %r becomes %r instead of %r", p.b, q.b, tr(float(p.b)))
        rec.nontrivial(c["s"] != 0)
    u, v = run(c["b"], c["data"]), run(c["b"] + 2 * math.pi, c["data"])
    eq(u.a, v.a, "concentration after a full turn of the prior", tot)
    # known direction: resultants about the common direction do not change
    m = c["b"]
    kd = lambda mu, x: sut(F().von_mises_known_direction, centered_cos_total=math.fsum(math.cos(t - mu) for t in x), n=len(x), prior=D().VonMisesKnownDirectionProportional(c=1.5, r=0.5))
    fields(kd(m, c["data"]), kd(tr(m), [tr(v) for v in c["data"]]), ["c", "r"], "known direction", len(c["data"]) * 10)


# ---------------------------------------------------------------- coordinates
@st.composite
def mv_case(draw):
    name = draw(st.sampled_from(mv.MV))
    p = draw(st.integers(1, 4))
    c = {"name": name, "p": p, "prior": draw(mv.prior_st(name, p)), "known": draw(mv.known_st(name, p)), "rows": draw(gen.mat(mv.E, draw(st.integers(1, 6)), p)),
         "sh": draw(gen.vec(SH, p)), "x": draw(gen.vec(mv.E, p)), "how": draw(st.sampled_from(["permute", "rotate", "scale", "linear", "shift", "rows", "units", "units"])), "j": draw(st.integers(-25, 25))}
    if c["how"] in ("permute",):
        c["perm"] = draw(st.permutations(range(p)))
    if c["how"] == "rows":
        c["perm"] = draw(st.permutations(range(len(c["rows"]))))
    c["seed"] = draw(gen.SEEDS)
    return c


def linear(c, p):
    rng = np.random.default_rng(c["seed"])
    if c["how"] == "permute":
        return np.eye(p)[list(c["perm"])]
    if c["how"] == "rotate":
        return np.linalg.qr(rng.normal(size=(p, p)))[0]
    if c["how"] == "units":
        return np.eye(p) * 2.0 ** c["j"]
    if c["how"] == "scale":
        return np.diag(2.0 ** rng.integers(-5, 6, p) * rng.choice([-1, 1], p))
    if c["how"] == "linear":
        for _ in range(20):
            A = rng.normal(size=(p, p))
            if np.linalg.cond(A) < 30:
                return A
    return np.eye(p)


KIND = {"mu": "vec", "cov": "mat", "psi": "mat", "precision": "inv", "delta_inverse": "mat"}


def trans(f, A, s):
    out = {}
    for k, v in f.items():
        v = np.array(v, float)
        kind = KIND.get(k)
        if kind == "vec":
            v = A @ v + s
        elif kind == "mat":
            v = A @ v @ A.T
            v = (v + v.T) / 2
        elif kind == "inv":
            B = np.linalg.inv(A)
            v = B.T @ v @ B
            v = (v + v.T) / 2
        out[k] = v
    return out


def gap(got, want, what, scale, rel):
    got, want = np.asarray(got, float), np.asarray(want, float)
    expect(got.shape == want.shape, "%s: shapes %r and %r", what, got.shape, want.shape)
    expect(bool(np.all(np.isfinite(got) & np.isfinite(want)) and np.all(np.abs(got - want) <= rel * (scale + np.abs(want).max()))), "%s: %s, transformed problem should give %s", what, got.tolist(), want.tolist())


@sub("C21", "coordinates-of-multivariate-data", mv_case(), quick=500, thorough=12000, rule="several dimensions and rows")
def coordinates(c, rec):
    name, p = c["name"], c["p"]
    X = np.array(c["rows"], float)
    A = linear(c, p)
    s = np.array(c["sh"], float) if c["how"] == "shift" else np.zeros(p)
    Y = X @ A.T + s
    if c["how"] == "rows":
        Y = X[list(c["perm"])]
    prior, known = {k: np.array(v, float) for k, v in c["prior"].items()}, {k: np.array(v, float) for k, v in c["known"].items()}
    # the mean prior of the variance models does not move with the mean of the data
    kappa = mv.cond(name, c["prior"], c["known"]) * np.linalg.cond(A) ** 2
    if kappa > 1e8:
        return
    cls = getattr(D(), mv.PRIOR[name])
    pa, pb = cls(**prior), cls(**trans(prior, A, s))
    data = (lambda Z: dict(n=len(Z), x_bar=Z.mean(axis=0))) if name in mv.MV[:2] else (lambda Z: dict(X=Z))
    a, b = sut(getattr(F(), name), prior=pa, **data(X), **known), sut(getattr(F(), name), prior=pb, **data(Y), **trans(known, A, s))
    fa = {k: getattr(a, k) for k in c["prior"]}
    big = max(np.abs(Y).max(), np.abs(s).max(), *(np.abs(v).max() for k, v in trans(prior, A, s).items() if k == "mu"), *(np.abs(v).max() for k, v in trans(known, A, s).items() if k == "mu"), 1.0)
    for k, v in trans(fa, A, s).items():
        scale = {"vec": big * np.sqrt(kappa), "mat": np.abs(v).max() + (len(X) + 1) * big**2}.get(KIND.get(k), 1.0)
        if k == "cov":
            scale = np.abs(v).max()
        gap(getattr(b, k), v, "%s %s after %s" % (name, k, c["how"]), scale * (1 + float(np.asarray(prior.get("kappa", 0)))), 1e-12 * kappa if k in ("mu", "cov") else 1e-11)
    # predictive
    if name + "_predictive" in dir(F()):
        u = sut(getattr(F(), name + "_predictive"), distribution=pa, **known)
        w = sut(getattr(F(), name + "_predictive"), distribution=pb, **trans(known, A, s))
        x = np.array(c["x"], float)
        la, lb = float(sut(u.dist.logpdf, x)), float(sut(w.dist.logpdf, A @ x + s))
        want = la - np.linalg.slogdet(A)[1]
        expect(abs(lb - want) <= 1e-9 * kappa * (abs(want) + 10 + (big if c["how"] != "units" else np.abs(X).max() + np.abs(x).max())), "%s predictive after %s: log density %r, should be %r", name, c["how"], lb, want)
    rec.nontrivial(p > 1 and len(X) > 1)
    rec.label(name, c["how"])


@st.composite
def lr_case(draw):
    p, n = draw(st.integers(1, 4)), draw(st.integers(1, 7))
    c = {"p": p, "prior": draw(mv.prior_st("linear_regression", p)), "X": draw(gen.mat(mv.E, n, p)), "y": draw(gen.vec(mv.E, n)), "how": draw(st.sampled_from(["rows", "rows", "permute", "rotate", "scale", "linear", "shift", "units"])),
         "k": draw(st.one_of(gen.pos(0.05, 20), gen.pos(1e-6, 1e6), st.sampled_from([2.0**20, 2.0**-20]))), "sh": draw(gen.vec(mv.E, p)), "seed": draw(gen.SEEDS), "new": draw(gen.mat(mv.E, draw(st.integers(1, 4)), p))}
    c["perm"] = draw(st.permutations(range(n if c["how"] == "rows" else p)))
    c["perm2"] = draw(st.permutations(range(len(c["new"]))))
    return c


@sub("C21", "regression-rows-and-basis", lr_case(), quick=400, thorough=10000, rule="several rows and columns")
def regression(c, rec):
    p = c["p"]
    X, y, Z = np.array(c["X"], float), np.array(c["y"], float), np.array(c["new"], float)
    mu, V, al, be = np.array(c["prior"]["mu"], float), np.array(c["prior"]["delta_inverse"], float), c["prior"]["alpha"], c["prior"]["beta"]
    how = c["how"]
    # coefficients gamma = G coefficients + g, outcome k y + X g
    G, k, g, X2, y2, Z2 = np.eye(p), 1.0, np.zeros(p), X, y, Z
    if how == "rows":
        X2, y2 = X[list(c["perm"])], y[list(c["perm"])]
    elif how == "shift":
        g = np.array(c["sh"], float)
        y2 = y + X @ g
    elif how == "units":
        k = c["k"]
        y2 = k * y
    else:
        B = linear(c, p)
        X2, Z2, G = X @ B, Z @ B, np.linalg.inv(B)
    kappa = np.linalg.cond(V) * np.linalg.cond(G) ** 2
    if kappa > 1e8:
        return
    V2 = G @ V @ G.T
    P1 = np.linalg.inv(V) + X.T @ X
    kappa *= np.linalg.cond(P1)
    if kappa > 1e10:
        return
    N = D().NormalInverseGamma
    a = sut(F().linear_regression, X=X, y=y, prior=N(mu=mu, delta_inverse=V, alpha=al, beta=be))
    b = sut(F().linear_regression, X=X2, y=y2, prior=N(mu=k * (G @ mu) + g, delta_inverse=(V2 + V2.T) / 2, alpha=al, beta=k * k * be))
    wmu = k * (G @ a.mu) + g
    gap(b.mu, wmu, "coefficients after " + how, 1 + np.abs(k * G @ mu).max() + np.abs(g).max() + np.abs(y2).max(), 1e-13 * kappa)
    gap(b.delta_inverse, G @ a.delta_inverse @ G.T, "coefficient covariance factor after " + how, 1e-3 * np.abs(V2).max(), 1e-13 * kappa)
    eq(b.alpha, a.alpha, "alpha after " + how)
    q = lambda m, W: float(m @ np.linalg.solve(W, m))
    m2 = float(y2 @ y2) + q(k * (G @ mu) + g, V2) + k * k * q(mu, V) + k * k * float(y @ y)
    eq(k * k * np.asarray(a.beta), b.beta, "beta after " + how, m2 * (1 + 1e-3 * kappa), 1e-12)
    # predictive of the prior at new rows
    d1, d2 = N(mu=mu, delta_inverse=V, alpha=al, beta=be), N(mu=k * (G @ mu) + g, delta_inverse=(V2 + V2.T) / 2, alpha=al, beta=k * k * be)
    u, w = sut(F().linear_regression_predictive, distribution=d1, X=Z), sut(F().linear_regression_predictive, distribution=d2, X=Z2)
    big = np.abs(u.sigma).max() * k * k
    gap(w.mu, k * np.asarray(u.mu) + Z @ g, "predictive location after " + how, 10 + np.abs(k * Z).max() * np.abs(mu).max() * 10, 1e-13 * kappa)
    gap(w.sigma, k * k * np.asarray(u.sigma), "predictive scale after " + how, big, 1e-13 * kappa)
    eq(u.nu, w.nu, "predictive degrees of freedom")
    # reordering the new rows reorders the predictive
    o = list(c["perm2"])
    r = sut(F().linear_regression_predictive, distribution=d1, X=Z[o])
    gap(r.mu, np.asarray(u.mu)[o], "predictive location of reordered rows", 1, 1e-12)
    gap(r.sigma, np.asarray(u.sigma)[np.ix_(o, o)], "predictive scale of reordered rows", np.abs(u.sigma).max(), 1e-12)
    rec.nontrivial(p > 1 and len(y) > 1)
    rec.label(how)


# ---------------------------------------------------------------- every coordinate in a unit of its own
@st.composite
def unit_case(draw):
    name = draw(st.sampled_from(mv.ALL))
    p = draw(st.integers(2, 4))
    w = p + (name == "linear_regression")
    hi = draw(st.sampled_from([8, 10, 14, 16]))
    return {"name": name, "p": p, "prior": draw(mv.prior_st(name, p)), "known": draw(mv.known_st(name, p)), "rows": draw(gen.mat(mv.E, draw(st.integers(1, 6)), w)),
            "new": draw(gen.mat(mv.E, 2, p)), "e": draw(gen.vec(st.one_of(st.integers(-hi, hi), st.sampled_from([0, hi, -hi])), p))}


INV = ("precision",)


def matscale(k, u):
    return np.outer(1 / u, 1 / u) if k in INV else np.outer(u, u)


def rescale(name, f, u, reg):
    """fields after coordinate i is measured in units 1/u[i] (regression: the columns of the design, so coefficients go the other way)"""
    t = 1 / u if reg else u
    out = {}
    for k, v in f.items():
        v = np.array(v, float)
        out[k] = v * t if k == "mu" else v * matscale(k, t) if v.ndim == 2 else v
    return out


@sub("C21", "units-per-coordinate", unit_case(), quick=300, thorough=8000, rule="units at least a factor 1000 apart")
def units(c, rec):
    name, p = c["name"], c["p"]
    reg = name == "linear_regression"
    u = 2.0 ** np.array(c["e"], float)
    prior, known = {k: np.array(v, float) for k, v in c["prior"].items()}, {k: np.array(v, float) for k, v in c["known"].items()}
    kappa = mv.cond(name, c["prior"], c["known"])
    if kappa > 1e4:
        return
    R = np.array(c["rows"], float)
    X = R[:, :p]
    if reg:
        a_kw, b_kw = dict(X=X, y=R[:, p]), dict(X=X * u, y=R[:, p])
        kappa *= np.linalg.cond(np.linalg.inv(prior["delta_inverse"]) + X.T @ X)
    elif name in mv.MV[:2]:
        a_kw, b_kw = dict(n=len(X), x_bar=X.mean(axis=0)), dict(n=len(X), x_bar=X.mean(axis=0) * u)
    else:
        a_kw, b_kw = dict(X=X), dict(X=X * u)
    if kappa > 1e6:
        return
    cls = getattr(D(), mv.PRIOR[name])
    a = sut(getattr(F(), name), prior=cls(**prior), **a_kw, **known)
    b = sut(getattr(F(), name), prior=cls(**rescale(name, prior, u, reg)), **b_kw, **rescale(name, known, u, False))
    # Elimination exchanges rows by size, so by unit: an off-diagonal entry that is small next to its diagonal ones may
    # become the pivot, and costs as many digits as it is small. Judged entry by entry in the old units.
    mats = [np.linalg.inv(v) for v in list(prior.values()) + list(known.values()) if v.ndim == 2] + [v for v in list(prior.values()) + list(known.values()) if v.ndim == 2]
    mats += [np.linalg.inv(np.asarray(getattr(a, k), float)) for k in c["prior"] if np.ndim(getattr(a, k)) == 2]
    small = 1.0
    for m in mats:
        m = np.abs(m / np.sqrt(np.outer(np.diag(m), np.diag(m))))
        small = min([small] + [v for v in m.ravel() if v > 1e-14])
    # and a column of an inverse is accurate relative to its largest entry, whatever the unit of the others
    rel = (1e-12 + 1e-15 * u.max() / u.min()) * kappa / small ** (p - 1)
    if rel > 0.02:
        return
    q0 = prior["mu"] @ np.linalg.inv(prior["delta_inverse"]) @ prior["mu"] if reg else 0.0

    def agree(x, y, flds, what):
        fx = {k: np.asarray(getattr(x, k), float) for k in flds}
        fy = {k: np.asarray(getattr(y, k), float) for k in flds}
        back = rescale(name, fy, 1 / u, reg)
        for k in flds:
            big = np.abs(R).max() + max([np.abs(v).max() for v in list(prior.values()) + list(known.values()) if np.ndim(v) == 1] + [1.0])
            scale = {0: 1.0, 1: big, 2: np.abs(fx[k]).max()}[fx[k].ndim]
            gap(back[k], fx[k], "%s: %s %s with coordinates in units %s" % (name, what, k, u.tolist()), scale * (1 + ((big**2 * len(R) + q0) if k in ("beta", "psi") else 0)), rel)

    agree(a, b, list(c["prior"]), "posterior")
    if name in (mv.MV[0], mv.MV[1]):
        pk = {"known_c" in name: "cov"}.get(True, "precision")
        x = sut(getattr(F(), name + "_predictive"), distribution=a, **known)
        y = sut(getattr(F(), name + "_predictive"), distribution=b, **rescale(name, known, u, False))
        agree(x, y, ["mu", "cov"], "predictive (known %s)" % pk)
    elif name == mv.MV[3]:
        x, y = sut(F().multivariate_normal_predictive, distribution=a), sut(F().multivariate_normal_predictive, distribution=b)
        fx, fy = np.asarray(x.sigma), np.asarray(y.sigma) / np.outer(u, u)
        gap(fy, fx, "predictive scale", np.abs(fx).max() * (1 + np.abs(R).max() ** 2 * len(R)), rel)
    elif reg:
        Z = np.array(c["new"], float)
        x, y = sut(F().linear_regression_predictive, distribution=a, X=Z), sut(F().linear_regression_predictive, distribution=b, X=Z * u)
        gap(y.mu, x.mu, "regression predictive location with columns in units %s" % u.tolist(), 10 + np.abs(Z).max() * p * np.abs(np.asarray(a.mu)).max(), rel * 10)
        gap(y.sigma, x.sigma, "regression predictive scale with columns in units %s" % u.tolist(), np.abs(np.asarray(x.sigma)).max(), rel * 1e3)
    rec.nontrivial(u.max() >= 1000 * u.min())
    rec.label(name)
