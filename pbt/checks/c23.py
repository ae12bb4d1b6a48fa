"""C23: posteriors and predictives are always valid distributions; data adds exactly the information it contributes."""
import math

import mpmath as mp
import numpy as np
from hypothesis import strategies as st

from pbt import gen, models, mvmodels as mv, preds
from pbt.checks.c20 import D, F
from pbt.core import expect, sub, sut
from pbt.ref import M, close

BIGP = gen.pos(1e-6, 1e8)
EXT = {"alpha": BIGP, "beta": BIGP, "nu": BIGP, "lam": BIGP, "sigma": gen.pos(1e-4, 1e6), "mu": gen.real(1e6), "x_m": gen.pos(1e-6, 1e6), "sigma2": gen.pos(1e-6, 1e6)}
WIDE = gen.pos(1e-8, 1e8)
CNT = gen.integer(0, 10**9)
ITEM = {"exponential_gamma": WIDE, "gamma_known_shape": WIDE, "inverse_gamma_known_rate": WIDE, "uniform_pareto": WIDE, "poisson_gamma": CNT, "negative_binomial_beta": CNT,
        "normal_known_variance": gen.real(1e6), "normal_known_precision": gen.real(1e6), "normal": gen.real(1e6), "normal_known_mean": gen.real(1e6), "normal_normal_inverse_gamma": gen.real(1e6)}
# the information a posterior carries, as an exact function of its fields, and what data adds to it
POS, UNIT, ANY, CNT0 = "pos", "unit", "any", "count"
DOMAIN = {
    "Beta": dict(alpha=POS, beta=POS), "Gamma": dict(alpha=POS, beta=POS), "InverseGamma": dict(alpha=POS, beta=POS), "ScaledInverseChiSquared": dict(nu=POS, sigma2=POS),
    "Normal": dict(mu=ANY, sigma=POS), "NormalInverseGamma": dict(mu=ANY, nu=POS, alpha=POS, beta=POS), "NormalGamma": dict(mu=ANY, lam=POS, alpha=POS, beta=POS),
    "Pareto": dict(x_m=POS, alpha=POS), "BetaBinomial": dict(n=CNT0, alpha=POS, beta=POS), "BetaNegativeBinomial": dict(n=POS, alpha=POS, beta=POS), "BetaGeometric": dict(alpha=POS, beta=POS),
    "NegativeBinomial": dict(n=POS, p=UNIT), "Lomax": dict(alpha=POS, lam=POS), "CompoundGamma": dict(alpha=POS, beta=POS, lam=POS), "StudentT": dict(mu=ANY, sigma=POS, nu=POS),
}
# fields that only ever grow, and their growth per observation history
GROWS = {"Beta": ("alpha", "beta"), "Gamma": ("alpha", "beta"), "InverseGamma": ("alpha", "beta"), "ScaledInverseChiSquared": ("nu",), "NormalInverseGamma": ("nu", "alpha", "beta"), "NormalGamma": ("lam", "alpha", "beta"),
         "Pareto": ("x_m", "alpha")}


def valid(o, what, skip=()):
    cls = type(o).__name__
    expect(cls in DOMAIN, "%s is a %s", what, cls)
    for f, k in DOMAIN[cls].items():
        if f in skip:
            continue
        v = np.asarray(getattr(o, f))
        expect(v.dtype.kind in "fiu" and np.isfinite(v).all(), "%s: %s.%s = %r is not a finite number", what, cls, f, getattr(o, f))
        ok = {POS: v > 0, UNIT: (v > 0) & (v <= 1), ANY: v == v, CNT0: v >= 0}[k]
        expect(bool(np.all(ok)), "%s: %s.%s = %r is outside its domain", what, cls, f, getattr(o, f))


def points(o):
    """outcomes near the bulk of the distribution, from its documented parameters"""
    c = type(o).__name__
    g = lambda f: float(np.asarray(getattr(o, f)))
    near = lambda m: [m * 0.9, m, m * 1.1]
    if c == "Beta":
        m = g("alpha") / (g("alpha") + g("beta"))
        return [0.5, m, m + (1 - m) / 2] if 1e-12 < m < 1 - 1e-12 else [0.5]
    if c == "Gamma":
        return near(g("alpha") / g("beta"))
    if c == "InverseGamma":
        return near(g("beta") / (g("alpha") + 1))
    if c == "ScaledInverseChiSquared":
        return near(g("sigma2") * g("nu") / (g("nu") + 2))
    if c in ("Normal", "StudentT"):
        return [g("mu"), g("mu") + g("sigma"), g("mu") - 2 * g("sigma")]
    if c == "Pareto":
        return [g("x_m") * 1.000001, g("x_m") * (1 + 1 / g("alpha")), g("x_m") * 2]
    if c == "Lomax":
        return [0.0, g("lam") / (g("alpha") + 1), g("lam")]
    if c == "CompoundGamma":
        return near(g("lam") * g("alpha") / (g("beta") + 1))
    if c == "BetaBinomial":
        n = int(g("n"))
        return sorted({0, n, int(n * (g("alpha") / (g("alpha") + g("beta"))))})
    if c == "NegativeBinomial":
        return [0, 1, int(min(g("n") * (1 - g("p")) / g("p"), 1e12))]
    m = min((g("n") if c == "BetaNegativeBinomial" else 1) * g("beta") / (g("alpha") + 1), 1e12)
    return [1, 2, int(m) + 1]


DISCRETE = ("BetaBinomial", "NegativeBinomial", "BetaNegativeBinomial", "BetaGeometric")
NOCDF = ("BetaGeometric", "CompoundGamma", "BetaNegativeBinomial", "BetaBinomial")
NODIST = ("NormalInverseGamma", "NormalGamma")


def functions(o, what):
    c = type(o).__name__
    if c in NODIST:
        return
    x = points(o)
    x = [v for v in x if math.isfinite(v)]
    pm = "pmf" if c in DISCRETE else "pdf"
    with np.errstate(all="ignore"):
        v = np.asarray(sut(lambda: getattr(o.dist, pm)(np.array(x))), float)
        expect(v.shape == (len(x),) and not np.isnan(v).any() and (v >= 0).all() and (np.isfinite(v).all() or c in ("Beta",)), "%s: %s.%s(%r) = %r", what, o, pm, x, v.tolist())
        # differences of log-beta terms of size s carry an error of a few s * 2**-53
        if pm == "pmf" and max(abs(float(np.asarray(getattr(o, f)))) for f in DOMAIN[c]) < 1e11:
            expect((v <= 1 + 1e-3).all(), "%s: %s.pmf(%r) = %r", what, o, x, v.tolist())
        if c not in NOCDF:
            u = np.asarray(sut(lambda: o.dist.cdf(np.array(sorted(x)))), float)
            expect(np.isfinite(u).all() and (u >= 0).all() and (u <= 1).all() and (np.diff(u) >= -1e-9).all(), "%s: %s.cdf(%r) = %r", what, o, sorted(x), u.tolist())


def case_st(m):
    @st.composite
    def build(draw):
        known = draw(models.known_st(m))
        item = ITEM.get(m.name, None) or m.item(known)
        hi = min(m.max_mult * 1000, 10**9) if m.max_mult > 1 else 1
        lo = 1 if m.max_mult == 1 or m.name == "uniform_pareto" else 0
        data = [list(t) for t in draw(st.lists(st.tuples(item, gen.mult(hi)), min_size=lo, max_size=lo if m.max_mult == 1 else 4))]
        if data and draw(st.integers(0, 3)) == 0:
            data = [[data[0][0], sum(k for _, k in data)]]  # constant data
        prior = {f: draw(EXT[f]) for f in m.fields}
        return {"prior": prior, "known": known, "data": data, "kind": draw(gen.KIND),
                "args": {p.key: {k: draw(s) for k, s in p.args.items()} for p in preds.PREDS if p.dist == m.post}}

    return build()


def mk(m):
    def check(c, rec):
        data, known = c["data"], c["known"]
        s = m.stats(data, known)
        kind = c["kind"]
        prior = sut(models.make_prior, m, c["prior"], kind)
        post = sut(models.call, m, prior, {**known, **m.consts}, s, kind)
        expect(type(post).__name__ == m.post, "%s gives a %s", m.name, type(post).__name__)
        exact = m.update(c["prior"], known, s)
        lossy = set()
        for f, (v, mag) in exact.items():
            got = getattr(post, f)
            expect(np.all(np.isfinite(np.asarray(got, float))), "%s: %s = %r", m.name, f, got)
            expect(close(got, v, mag, 1e-12), "%s: %s = %r, data contributes exactly %s", m.name, f, got, mp.nstr(v - M(c["prior"][f]), 12))
            if abs(v) <= mp.mpf("1e-11") * mag:
                lossy.add(f)  # double precision sums cannot resolve this value
        valid(post, "%s posterior" % m.name, lossy)
        for f in GROWS.get(m.post, ()):
            if f not in lossy:
                mag = float(exact[f][1])
                expect(float(getattr(post, f)) >= float(c["prior"][f]) - 1e-12 * mag, "%s: data lowered %s from %r to %r", m.name, f, c["prior"][f], getattr(post, f))
        if m.post == "Normal":
            expect(float(post.sigma) <= float(c["prior"]["sigma"]) * (1 + 1e-12), "%s: data lowered the precision, sigma from %r to %r", m.name, c["prior"]["sigma"], post.sigma)
        if data == [] and m.name != "uniform_pareto":
            for f in m.fields:
                expect(close(getattr(post, f), M(c["prior"][f]), exact[f][1], 1e-12), "%s: no data changed %s from %r to %r", m.name, f, c["prior"][f], getattr(post, f))
        if lossy & {"beta", "sigma2"}:
            rec.label("cancellation")
            return
        functions(post, "%s posterior" % m.name)
        for p in preds.PREDS:
            if p.dist == m.post:
                pr = sut(preds.call, p, post, c["args"][p.key])
                valid(pr, "%s of the %s posterior" % (p.name, m.name))
                functions(pr, "%s of the %s posterior" % (p.name, m.name))
        n = sum(k for _, k in data)
        rec.nontrivial(n > 0)
        rec.label("no data" if not n else "constant" if len(data) == 1 else "mixed", "huge" if n > 10**6 else "small")

    return check


for m in models.MODELS:
    if m.key not in ("normal_normal_inverse_gamma-NormalInverseGamma", "poisson_gamma-exposure"):
        sub("C23", "valid-" + m.key, case_st(m), quick=100, thorough=4000, rule="at least one observation")(mk(m))


# ------------------------------------------------------------------ categories
@st.composite
def dcase(draw):
    k = draw(st.integers(1, 8))
    x = draw(st.lists(st.one_of(st.just(0), gen.integer(0, 10**9)), min_size=k, max_size=k))
    return {"alpha": draw(st.lists(BIGP, min_size=k, max_size=k)), "x": x, "n": draw(gen.integer(1, 1000))}


@sub("C23", "valid-dirichlet", dcase(), quick=200, rule="some category observed and some not")
def dirichlet(c, rec):
    a, x = np.array(c["alpha"], float), np.array(c["x"])
    prior = D().Dirichlet(a.copy())
    for fn in ("categorical_dirichlet", "multinomial_dirichlet"):
        post = sut(getattr(F(), fn), x=x, prior=prior)
        b = np.asarray(post.alpha, float)
        expect(b.shape == a.shape and np.isfinite(b).all() and (b > 0).all(), "%s: %r", fn, post)
        expect((b >= a).all() and (np.abs(b - (a + x)) <= 1e-15 * (a + x)).all(), "%s: pseudo-counts grew by %s, data %s", fn, (b - a).tolist(), x.tolist())
        pr = sut(getattr(F(), fn + "_predictive"), distribution=post, n=c["n"])
        expect(int(pr.n) == c["n"] and np.isfinite(np.asarray(pr.alpha, float)).all() and (np.asarray(pr.alpha, float) > 0).all(), "%s predictive %r", fn, pr)
        with np.errstate(all="ignore"):
            y = np.zeros(len(a), int)
            y[int(np.argmax(b))] = c["n"]
            v = float(sut(pr.dist.pmf, y))
        expect(0 <= v <= 1 + 1e-3, "%s predictive pmf(%r) = %r", fn, y.tolist(), v)
    rec.nontrivial((x > 0).any() and (x == 0).any())


# ------------------------------------------------------------------ multivariate
@st.composite
def mvcase(draw):
    name = draw(st.sampled_from(mv.ALL))
    p = draw(st.integers(1, 4))
    c = {"name": name, "p": p, "prior": draw(mv.prior_st(name, p)), "known": draw(mv.known_st(name, p)), "scale": draw(st.sampled_from([1e-3, 1.0, 1.0, 1e3])), "pscale": draw(st.sampled_from([1e-3, 1.0, 1e3])),
         "style": draw(st.sampled_from(["free", "constant", "collinear", "one", "zero", "repeat"])), "rep": draw(gen.integer(1, 200))}
    f = c["prior"]
    for k in ("kappa", "alpha", "beta"):
        if k in f:
            f[k] = draw(gen.pos(1e-4, 1e6))
    if "nu" in f:
        f["nu"] = draw(st.one_of(st.just(p), gen.num(p, 1e6)))
    w = p + 1 if name == "linear_regression" else p
    c["rows"] = draw(gen.mat(mv.E, draw(st.integers(1, 6)), w))
    return c


def sympd(A, what, ref_min, tol):
    A = np.asarray(A, float)
    expect(np.isfinite(A).all(), "%s = %s", what, A.tolist())
    s = np.abs(A).max()
    expect(np.abs(A - A.T).max() <= tol * s, "%s is not symmetric: %s", what, A.tolist())
    if ref_min is None or ref_min > 1e-11 * s:
        w = np.linalg.eigvalsh((A + A.T) / 2)
        expect(w[0] > 0, "%s is not positive definite: eigenvalues %s", what, w.tolist())
        return True
    return False


@sub("C23", "valid-multivariate", mvcase(), quick=500, thorough=12000, rule="at least two dimensions and degenerate or several rows")
def multivariate(c, rec):
    name, p = c["name"], c["p"]
    rows = np.array(c["rows"], float) * c["scale"]
    if c["style"] == "constant":
        rows = np.repeat(rows[:1], c["rep"], axis=0)
    elif c["style"] == "collinear":
        rows = np.outer(np.arange(1, len(rows) + 1), rows[0])
    elif c["style"] == "one":
        rows = rows[:1]
    elif c["style"] == "zero":
        rows = rows * 0
    elif c["style"] == "repeat":
        rows = np.repeat(rows, min(c["rep"], 50), axis=0)
    prior = {k: np.array(v, float) * (c["pscale"] if k in ("psi", "delta_inverse") else 1) for k, v in c["prior"].items()}
    known = {k: np.array(v, float) for k, v in c["known"].items()}
    n = len(rows)
    big = np.abs(rows).max() + np.abs(prior.get("mu", known.get("mu", 0))).max()
    kap = mv.cond(name, c["prior"], c["known"])
    if kap > 1e7:
        return
    pr = getattr(D(), mv.PRIOR[name])(**{k: (v if v.ndim else float(v)) for k, v in prior.items()})
    what = "%s (%s)" % (name, c["style"])
    if name in mv.MV[:2]:
        post = sut(getattr(F(), name), n=n, x_bar=rows.mean(axis=0), prior=pr, **known)
        ok = sympd(post.cov, what + " covariance", None, 1e-12 * kap)
        expect(np.isfinite(np.asarray(post.mu)).all() and np.shape(post.mu) == (p,), "%s mean %r", what, post.mu)
        # precision grows by exactly n precisions of one observation
        P0, P1 = np.linalg.inv(prior["cov"]), np.linalg.inv(np.asarray(post.cov))
        P = np.linalg.inv(known["cov"]) if name == mv.MV[0] else known["precision"]
        expect(np.abs(P1 - P0 - n * P).max() <= 1e-12 * kap**2 * np.abs(P1).max(), "%s: precision grew by %s, data contributes %s", what, (P1 - P0).tolist(), (n * P).tolist())
        pd = sut(getattr(F(), name + "_predictive"), distribution=post, **known)
        sympd(pd.cov, what + " predictive covariance", None, 1e-12 * kap)
        x = np.asarray(pd.mu)
    elif name in mv.MV[2:]:
        post = sut(getattr(F(), name), X=rows.copy(), prior=pr, **known)
        S = np.asarray(post.psi)
        lam0 = np.linalg.eigvalsh(prior["psi"])[0]
        ok = sympd(S, what + " scale", lam0, 1e-12)
        eq = lambda a, b, k: expect(abs(float(a) - float(b)) <= 1e-12 * max(1, abs(float(b))), "%s: %s is %r, data should make it %r", what, k, a, b)
        eq(post.nu, c["prior"]["nu"] + n, "degrees of freedom")
        expect(float(post.nu) > p - 1, "%s: %r degrees of freedom in %d dimensions", what, post.nu, p)
        # the scale never shrinks
        g = np.linalg.eigvalsh(((S + S.T) - (prior["psi"] + prior["psi"].T)) / 2)[0]
        expect(g >= -1e-11 * (np.abs(S).max() + n * big**2), "%s: data lowered the scale matrix by %r", what, g)
        if name == mv.MV[2]:
            return rec.nontrivial(p > 1)
        eq(post.kappa, c["prior"]["kappa"] + n, "kappa")
        pd = sut(F().multivariate_normal_predictive, distribution=post)
        expect(float(pd.nu) > 0, "%s: predictive with %r degrees of freedom", what, pd.nu)
        ok = ok and sympd(pd.sigma, what + " predictive scale", lam0 / max(float(pd.nu), 1), 1e-12)
        x = np.asarray(pd.mu)
    else:
        X, y = rows[:, :p].copy(), rows[:, p].copy()
        V0 = prior["delta_inverse"]
        P0 = np.linalg.inv(V0)
        P1 = P0 + X.T @ X
        k1 = np.linalg.cond(P1) * kap
        if k1 > 1e10:
            return
        post = sut(F().linear_regression, X=X, y=y, prior=pr)
        V = np.asarray(post.delta_inverse)
        ok = sympd(V, what + " coefficient covariance factor", None, 1e-12 * k1)
        expect(np.abs(np.linalg.inv(V) - P1).max() <= 1e-12 * k1 * np.abs(P1).max(), "%s: precision grew by %s, data contributes %s", what, (np.linalg.inv(V) - P0).tolist(), (X.T @ X).tolist())
        expect(abs(float(post.alpha) - (c["prior"]["alpha"] + n / 2)) <= 1e-12 * (c["prior"]["alpha"] + n), "%s: alpha %r", what, post.alpha)
        mag = float(y @ y) + float(prior["mu"] @ P0 @ prior["mu"])
        b0 = c["prior"]["beta"]
        expect(np.isfinite(float(post.beta)) and float(post.beta) >= b0 - 1e-11 * k1 * (mag + b0), "%s: data lowered beta from %r to %r", what, b0, post.beta)
        if 1e-11 * k1 * mag > b0:
            return
        pd = sut(F().linear_regression_predictive, distribution=post, X=X[:3].copy())
        expect(float(pd.nu) > 0 and np.isfinite(np.asarray(pd.mu)).all(), "%s predictive %r", what, pd)
        ok = ok and sympd(pd.sigma, what + " predictive scale", None, 1e-12 * k1)
        x = np.asarray(pd.mu)
    S = np.asarray(pd.sigma if hasattr(pd, "sigma") else pd.cov, float)
    if ok and np.linalg.cond(S) < 1e9:  # beyond that scipy refuses the matrix as numerically singular
        v = sut(lambda: float(pd.dist.logpdf(x)))
        expect(math.isfinite(v), "%s: predictive log density at its centre is %r", what, v)
    rec.nontrivial(p > 1 and (c["style"] != "free" or n > 1))
    rec.label(name, c["style"], "n=1" if n == 1 else "n<=p" if n <= p else "n>p")


# ------------------------------------------------------------------ unnormalised families and finite populations
FAM = st.fixed_dictionaries(dict(k=gen.pos(1e-3, 1e6), x=st.lists(gen.prob(1e-6), min_size=1, max_size=8), lo=gen.pos(1e-3, 10), u=st.floats(0.01, 0.99), N=gen.integer(1, 10**6), f=st.floats(0, 1), a=BIGP, b=BIGP, ang=st.lists(st.floats(-3.1, 3.1), min_size=1, max_size=8), same=st.booleans()))


@sub("C23", "valid-unnormalised", FAM, quick=300, rule="always")
def families(c, rec):
    x = [c["x"][0]] * len(c["x"]) if c["same"] else c["x"]
    n, k = len(x), c["k"]
    close_ = lambda a, b, w, mag=0.0: expect(math.isfinite(float(a)) and abs(float(a) - b) <= 1e-12 * (abs(b) + mag), "%s is %r, data should make it %r", w, a, b)
    xp, op, xs = math.prod(x), math.prod(1 - v for v in x), math.fsum(x)
    g = sut(F().gamma, x_total=xs, x_prod=xp, n=n, prior=D().GammaProportional(p=c["lo"], q=k, r=k, s=k))
    for f, w in (("p", c["lo"] * xp), ("q", k + xs), ("r", k + n), ("s", k + n)):
        close_(getattr(g, f), w, "gamma " + f)
    h = sut(F().gamma_known_rate, x_prod=xp, n=n, beta=c["a"], prior=D().GammaKnownRateProportional(a=c["lo"], b=k, c=k))
    for f, w in (("a", c["lo"] * xp), ("b", k + n), ("c", k + n)):
        close_(getattr(h, f), w, "gamma, known rate " + f)
    b = sut(F().beta, x_prod=xp, one_minus_x_prod=op, n=n, prior=D().BetaProportional(p=c["u"], q=1 - c["u"], k=k))
    for f, w in (("p", c["u"] * xp), ("q", (1 - c["u"]) * op), ("k", k + n)):
        close_(getattr(b, f), w, "beta " + f)
    expect(0 < float(b.p) <= c["u"] and 0 < float(b.q) <= 1 - c["u"], "beta products %r", b)
    al = np.array([0.3, 1.0, 4.0])
    for o, v in ((g, g.approx_log_likelihood(al, 2.0)), (h, h.approx_log_likelihood(al, 2.0)), (b, b.approx_log_likelihood(al, 2.0))):
        expect(np.isfinite(np.asarray(v, float)).all(), "log curve of %r is %r", o, v)
    ang = [c["ang"][0]] * len(c["ang"]) if c["same"] else c["ang"]
    kap = min(c["lo"] * 3, 30.0)
    v = sut(F().von_mises_known_concentration, cos_total=math.fsum(map(math.cos, ang)), sin_total=math.fsum(map(math.sin, ang)), n=len(ang), kappa=kap, prior=D().VonMisesKnownConcentration(a=min(k, 300.0), b=ang[-1]))
    tot = min(k, 300.0) + kap * len(ang)
    expect(0 <= float(v.a) <= tot * (1 + 1e-12) and math.isfinite(float(v.b)), "directional posterior %r", v)
    expect(np.isfinite(np.asarray(v.log_likelihood(np.array([-1.0, 0.0, 2.0])), float)).all(), "log curve of %r", v)
    cc = math.fsum(math.cos(t) for t in ang)
    w = sut(F().von_mises_known_direction, centered_cos_total=cc, n=len(ang), prior=D().VonMisesKnownDirectionProportional(c=k, r=k * c["u"]))
    close_(w.c, k + len(ang), "c")
    close_(w.r, k * c["u"] + cc, "r", k + len(ang))
    expect(abs(float(w.r)) <= float(w.c) * (1 + 1e-12), "resultant %r exceeds the count %r", w.r, w.c)
    N = c["N"]
    xt = round(c["f"] * N)
    q = sut(F().hypergeometric_beta_binomial, x_total=xt, n=N, prior=D().BetaBinomial(N, c["a"], c["b"]))
    valid(q, "finite population posterior")
    close_(q.alpha, c["a"] + xt, "alpha")
    close_(q.beta, c["b"] + N - xt, "beta", N)
    rec.nontrivial()


# ---------------------------------------------------------------- rows far from the origin
@st.composite
def farcase(draw):
    p = draw(st.integers(1, 4))
    return {"p": p, "rows": draw(gen.mat(st.floats(-3, 3).map(lambda v: round(v, 4)), draw(st.integers(1, 8)), p)), "rep": draw(st.integers(1, 12)), "off": draw(gen.vec(st.sampled_from([0.0, 1e3, -1e5, 1e6, 1e8, -1e9]), p)),
            "psi": draw(gen.spd(p)), "shrink": draw(st.sampled_from([1.0, 1e-3])), "kappa": draw(gen.pos(0.05, 50)), "nu": draw(gen.num(p + 1, 100)), "known": draw(st.booleans())}


@sub("C23", "far-from-the-origin", farcase(), quick=300, thorough=6000, rule="the offset is at least a million spreads")
def far(c, rec):
    """dates, coordinates, identifiers: the spread is tiny next to the values, the scale matrix stays positive definite"""
    p = c["p"]
    off = np.array(c["off"])
    rows = np.repeat(np.array(c["rows"], float), c["rep"], axis=0)
    X = off + rows
    rows = X - off  # what the representable rows really are
    psi = np.array(c["psi"], float) * c["shrink"]
    lam0, top = np.linalg.eigvalsh(psi)[[0, -1]]
    n = len(X)
    if c["known"]:
        post = sut(F().multivariate_normal_known_mean, X=X, mu=off.copy(), prior=D().InverseWishart(nu=c["nu"], psi=psi.copy()))
        want = psi + rows.T @ rows
    else:
        post = sut(F().multivariate_normal, X=X, prior=D().NormalInverseWishart(mu=off.copy(), kappa=c["kappa"], nu=c["nu"], psi=psi.copy()))
        m = rows.mean(axis=0)
        want = psi + (rows - m).T @ (rows - m) + np.outer(m, m) * n * c["kappa"] / (c["kappa"] + n)
    S = np.asarray(post.psi, float)
    eps = 2.3e-16 * np.abs(off).max() * 20
    slack = n * eps * (eps + 2 * np.abs(rows).max())
    what = "%d rows around %r" % (n, c["off"])
    expect(S.shape == (p, p) and np.abs(S - want).max() <= 0.01 * np.abs(want).max() + 10 * slack, "%s: scale %s, should be %s", what, S.tolist(), want.tolist())
    if lam0 > 10 * slack and lam0 > 1e-11 * np.abs(S).max():
        w = np.linalg.eigvalsh((S + S.T) / 2)
        expect(w[0] >= 0.5 * lam0, "%s: eigenvalues %s, the prior alone has at least %r", what, w.tolist(), lam0)
    if not c["known"]:
        expect(np.abs(np.asarray(post.mu, float) - off).max() <= np.abs(rows).max() * (1 + 1e-9) + 10 * eps, "%s: centre %r", what, post.mu)
    rec.nontrivial(np.abs(off).max() >= 1e6)
    rec.label("p=%d" % p)
