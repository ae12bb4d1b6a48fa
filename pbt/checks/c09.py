"""C09: each distribution implements its documented parameterisation."""
import math

import mpmath as mp
import numpy as np
import scipy.special as sc
from hypothesis import strategies as st

from pbt import cdfs, dists, gen, ref
from pbt.checks.c05 import agree, size
from pbt.core import expect, sub, sut
from pbt.ref import M, col, mm

NOCDF = {"BetaGeometric-1", "BetaGeometric-0", "CompoundGamma", "VonMises"}


def case(d):
    return st.fixed_dictionaries({
        "p": st.fixed_dictionaries(d.params), "x": st.lists(d.x, min_size=1, max_size=6),
        "u": st.floats(0.02, 0.98), "half": st.booleans(),
        "kind": gen.KIND,
    })


def relx(x, p, d):
    """points of the support rather than of the whole axis, from a fraction"""
    return x


def mk(d):
    def check(c, rec):
        p = d.fix(c["p"])
        P = {k: M(v) for k, v in p.items()}
        obj = sut(d.make, {k: gen.present(v, c["kind"], k) for k, v in p.items()}, c["kind"])
        dist = sut(lambda: obj.dist)
        mags = list(p.values())
        inside = 0
        xs = list(c["x"])
        if d.continuous and d.mean and d.mean(P) is not None and d.var(P) is not None:
            # points of the bulk
            m, s = float(d.mean(P)), math.sqrt(float(d.var(P)))
            xs += [m, m + s * (c["u"] - 0.5) * 2]
        elif not d.continuous and d.mean and d.mean(P) is not None and float(d.mean(P)) < 1e5:
            xs += [int(d.mean(P)), int(d.mean(P)) + 1]
        if not d.continuous and c["half"]:
            agree(sut(getattr(dist, d.pm), xs[0] + 0.5), -mp.inf, 1, "%s%r mass at %r" % (d.name, p, xs[0] + 0.5))
        fn = getattr(dist, d.pm)
        arr = np.asarray(sut(fn, np.array(xs, dtype=float if d.continuous else int)))
        for i, x in enumerate(xs):
            w = d.logp(x, p)
            inside += w != -mp.inf
            what = "%s%r %s(%r)" % (d.name, p, d.pm, x)
            extra = 0
            if d.name in ("Normal", "LogNormal") and w != -mp.inf:
                extra = float(abs(w)) * 10
            if d.name in ("Weibull", "Exponential", "Gamma", "Lomax", "Pareto", "InverseGamma", "ScaledInverseChiSquared") and w != -mp.inf:
                extra = 100 * (1 + float(abs(w)))
            if d.name == "BetaNegativeBinomial":
                extra = size(*mags) * 100
            g = sut(fn, x)
            agree(g, w, size(x if not d.continuous else 1, *mags) + extra, what)
            expect(abs(float(arr[i]) - float(g)) <= 1e-9 * abs(float(g)), "%s: %r alone, %r in an array", what, g, arr[i])
            if d.key not in NOCDF:
                lg = getattr(dist, "log" + d.pm)
                if w != -mp.inf and w > -600:
                    expect(abs(M(float(sut(lg, x))) - w) <= 1e-8 * (size(x if not d.continuous else 1, *mags) + extra), "%s: logarithm %r, should be %s", what,
                           lg(x), mp.nstr(w, 12))
                wc = cdfs.cdf(d, x, p)
                gc = float(sut(dist.cdf, x))
                expect(abs(gc - wc) <= 1e-7, "%s%r cdf(%r) = %r, should be %r", d.name, p, x, gc, wc)
        if d.mean and d.key not in NOCDF:
            for nm, f in (("mean", d.mean), ("var", d.var)):
                w = f(P)
                if w is not None:
                    g = sut(getattr(dist, nm))
                    # variances are formed as differences of moments
                    tol = 1e-6 * abs(w) if nm == "mean" else 1e-5 * abs(w) + mp.mpf(10) ** -9 * (abs(d.mean(P)) ** 2 if d.name not in ("Normal",) else 0)
                    expect(abs(M(float(g)) - w) <= tol, "%s%r %s = %r, should be %s", d.name, p, nm, g, mp.nstr(w, 15))
            if d.name == "Normal":
                expect(ref.close(sut(dist.std), P["sigma"]), "standard deviation %r", dist.std())
        if d.key in cdfs.SUPPORT:
            lo, hi = sut(dist.support)
            wl, wh = cdfs.SUPPORT[d.key](p)
            close = lambda a, b: a == b or abs(float(a) - float(b)) <= 1e-9 * max(1, abs(float(b)))
            expect(close(lo, wl) and close(hi, wh), "%s%r support (%r, %r), should be (%r, %r)", d.name, p, lo, hi, wl, wh)
            q = float(sut(dist.ppf, c["u"])) if d.name != "BetaNegativeBinomial" else math.nan  # scipy searches its heavy tail step by step
            if math.isfinite(q):
                if d.continuous:
                    e = abs(q) * 1e-12
                    expect(cdfs.cdf(d, q - e, p) - 1e-6 <= c["u"] <= cdfs.cdf(d, q + e, p) + 1e-6, "%s%r: quantile of %r is %r, whose probability is %r", d.name, p, c["u"], q,
                           cdfs.cdf(d, q, p))
                elif q < 400:
                    expect(cdfs.cdf(d, q, p) >= c["u"] - 1e-7 and cdfs.cdf(d, q - 1, p) <= c["u"] + 1e-7, "%s%r: quantile of %r is %r", d.name, p, c["u"], q)
        rec.nontrivial(inside >= 1 and any(v != 1 for v in p.values()))
        rec.label(c["kind"][:3], "some outside" if inside < len(xs) else "all inside")

    return check


for d in dists.DISTS:
    sub("C09", "law-" + d.key, case(d), quick=120, thorough=6000, rule="a point inside the support, parameters not all one")(mk(d))


# ------------------------------------------------------------------ sampling law
MILD = {"n": gen.integer(1, 40), "p": st.floats(0.03, 0.97), "N": gen.integer(20, 60)}


def smallcase(d):
    def strat(k):
        dom = d.vec[k]
        if dom[0] == dom[1]:
            return st.just(dom[0])
        return st.integers(dom[0], dom[1]) if len(dom) == 3 else st.floats(dom[0], dom[1])

    ps = st.fixed_dictionaries({k: strat(k) for k in d.vec})
    if d.name == "Hypergeometric":
        ps = ps.filter(lambda p: p["n"] > 0)  # numpy draws at least one item
    return st.fixed_dictionaries({"p": ps, "seed": gen.SEEDS, "gen": st.booleans()})


def smk(d):
    def check(c, rec):
        n = 1500
        obj = sut(d.make, c["p"])
        rs = np.random.default_rng(c["seed"]) if c["gen"] else c["seed"]
        x = np.asarray(sut(obj.dist.rvs, size=n, random_state=rs))
        expect(x.shape == (n,), "%d draws have shape %r", n, x.shape)
        u = np.sort(x)
        if d.continuous:
            F = np.array([cdfs.cdf(d, v, c["p"]) for v in u])
            pv = cdfs.ks(u, F)
        else:
            atoms = {v: (cdfs.cdf(d, v - 1, c["p"]), cdfs.cdf(d, v, c["p"])) for v in set(u.tolist()) if v <= 300}
            u = u[u <= 300]
            if len(u) < n / 2:
                return
            lim = len(u)
            left = np.array([atoms[v][0] for v in u.tolist()])
            right = np.array([atoms[v][1] for v in u.tolist()])
            # empirical cdf relative to all n draws
            e_r = np.searchsorted(u, u, "right") / n
            e_l = np.searchsorted(u, u, "left") / n
            pv = cdfs.kolm(max(np.max(np.abs(e_r - right)), np.max(np.abs(e_l - left))), n)
        expect(pv > cdfs.LIMIT, "%s%r: %d draws do not follow the documented law (p-value bound %.2g)", d.name, c["p"], n, pv)
        rec.nontrivial()

    return check


for d in dists.DISTS:
    if d.name not in ("VonMises", "BetaNegativeBinomial"):
        sub("C09", "draws-" + d.key, smallcase(d), quick=12, thorough=300, rule="always")(smk(d))


# ------------------------------------------------------------------ von Mises, any direction
@sub("C09", "von-mises-any-direction", st.fixed_dictionaries(dict(
    mu=st.floats(-3.14, 3.14), kappa=gen.pos(1e-2, 2000), x=st.lists(st.floats(-3.14, 3.14), min_size=1, max_size=4), seed=gen.SEEDS)), quick=60,
    rule="direction not zero")
def vm(c, rec):
    import conjugate.distributions as D

    o = D.VonMises(c["mu"], c["kappa"])
    for x in c["x"]:
        agree(sut(o.dist.pdf, x), ref.vonmises(M(x), M(c["mu"]), M(c["kappa"])), 10 + 20 * c["kappa"], "VonMises(%r, %r) pdf(%r)" % (c["mu"], c["kappa"], x))
    n = 1500
    s = np.asarray(sut(o.dist.rvs, size=n, random_state=c["seed"]))
    t = (s - c["mu"] + math.pi) % (2 * math.pi) - math.pi
    g = np.linspace(-math.pi, math.pi, 20001)
    f = np.exp(c["kappa"] * (np.cos(g) - 1))
    F = np.concatenate([[0], np.cumsum((f[1:] + f[:-1]) / 2)])
    F /= F[-1]
    u = np.sort(t)
    pv = cdfs.ks(u, np.interp(u, g, F))
    expect(pv > cdfs.LIMIT, "VonMises(%r, %r): draws do not follow the density (p-value bound %.2g)", c["mu"], c["kappa"], pv)
    rec.nontrivial(c["mu"] != 0)


# ------------------------------------------------------------------ vectors and matrices
@st.composite
def veccase(draw):
    k = draw(st.one_of(st.integers(2, 5), st.integers(2, 14)))
    x = draw(gen.vec(gen.integer(0, 60), k))
    if not sum(x):
        x[0] = 1
    return {"a": draw(gen.vec(gen.pos(0.05, 200), k)), "p": draw(gen.simplex(k)), "x": x, "t": draw(gen.simplex(k)), "aslist": draw(st.booleans()),
            "seed": gen.SEEDS and draw(gen.SEEDS)}


@sub("C09", "law-Multinomial", veccase(), quick=150, rule="several trials")
def multinomial(c, rec):
    import conjugate.distributions as D

    n = sum(c["x"])
    p = np.array(c["p"])
    p = p / p.sum()
    o = D.Multinomial(n, list(p) if c["aslist"] else p)
    agree(sut(o.dist.pmf, c["x"]), ref.multinomial(M(c["x"]), M(p)), size(n), "Multinomial pmf")
    bad = list(c["x"])
    bad[0] += 1
    agree(sut(o.dist.pmf, bad), -mp.inf, 1, "Multinomial pmf with a wrong total")
    C = np.asarray(sut(o.dist.cov))
    expect(np.allclose(C, n * (np.diag(p) - np.outer(p, p)), rtol=1e-9, atol=1e-12 * n), "covariance %r", C)
    s = np.asarray(sut(o.dist.rvs, size=5, random_state=c["seed"]))
    expect(s.shape == (5, len(p)) and (s.sum(axis=1) == n).all() and (s >= 0).all(), "draws %r", s)
    rec.nontrivial(n > 1)


@sub("C09", "law-DirichletMultinomial", veccase(), quick=150, rule="several trials")
def dm(c, rec):
    import conjugate.distributions as D

    n = sum(c["x"])
    a = np.array(c["a"], float)
    o = D.DirichletMultinomial(list(a) if c["aslist"] else a, n)
    agree(sut(o.dist.pmf, c["x"]), ref.dirmult(M(c["x"]), M(c["a"])), size(n, *c["a"]) * 10, "DirichletMultinomial pmf")
    m = np.asarray(sut(o.dist.mean))
    expect(np.allclose(m, n * a / a.sum(), rtol=1e-9), "mean %r", m)
    A = a.sum()
    C = np.asarray(sut(o.dist.cov))
    q = a / A
    expect(np.allclose(C, n * (np.diag(q) - np.outer(q, q)) * (n + A) / (1 + A), rtol=1e-8, atol=1e-10 * n), "covariance %r", C)
    rec.nontrivial(n > 1)


@sub("C09", "law-Dirichlet", veccase(), quick=150, rule="parameters not all one")
def dirichlet(c, rec):
    import conjugate.distributions as D

    a = np.array(c["a"], float)
    o = D.Dirichlet(list(a) if c["aslist"] else a)
    t = np.array(c["t"])
    t = t / t.sum()
    t[-1] = 1 - t[:-1].sum()
    if (t > 1e-9).all():
        w = ref.dirichlet(M(t), M(a))
        g = sut(o.dist.logpdf, t)
        expect(abs(M(float(g)) - w) <= 1e-8 * size(*a), "Dirichlet log density %r, should be %s", g, mp.nstr(w, 12))
    A = a.sum()
    expect(np.allclose(sut(o.dist.mean), a / A, rtol=1e-9), "mean")
    expect(np.allclose(sut(o.dist.var), a * (A - a) / A**2 / (A + 1), rtol=1e-8), "variance")
    n = 600
    s = np.asarray(sut(o.dist.rvs, size=n, random_state=c["seed"]))
    expect(s.shape == (n, len(a)) and np.allclose(s.sum(axis=1), 1), "draws have shape %r", s.shape)
    u = np.sort(s[:, 0])
    # with almost all the mass next to one, rounding to one makes an atom there
    pv = cdfs.ks(u, sc.betainc(a[0], A - a[0], np.clip(u, 0, 1))) if A - a[0] > 0.3 else 1.0
    expect(pv > cdfs.LIMIT, "Dirichlet(%r): draws do not follow the law (%.2g)", a, pv)
    rec.nontrivial((a != 1).any())


@sub("C09", "batch-of-Dirichlet", st.fixed_dictionaries(dict(m=st.integers(1, 5), k=st.integers(2, 5), seed=gen.SEEDS, hi=st.sampled_from([2.0, 50.0]))),
     quick=80, rule="several rows")
def dirichlets(c, rec):
    """one Dirichlet law per row of parameters"""
    import conjugate.distributions as D

    r = np.random.default_rng(c["seed"])
    a = r.uniform(0.2, c["hi"], (c["m"], c["k"]))
    d = D.Dirichlet(a).dist
    want = a / a.sum(axis=1, keepdims=True)
    g = np.asarray(sut(d.mean))
    expect(g.shape == a.shape and np.allclose(g, want, rtol=1e-9), "means %r, should be %r", g, want)
    n = 400
    np.random.seed(c["seed"] % 2**31)
    s = np.asarray(sut(d.rvs, size=n))
    expect(s.shape == (c["m"], n, c["k"]) and np.allclose(s.sum(axis=-1), 1) and (s >= 0).all(), "draws of shape %r", s.shape)
    for i in range(c["m"]):
        for j in range(c["k"]):
            u = np.sort(s[i, :, j])
            pv = cdfs.ks(u, sc.betainc(a[i, j], a[i].sum() - a[i, j], np.clip(u, 0, 1)))
            expect(pv > cdfs.LIMIT, "row %d, category %d: draws do not follow the law (%.2g)", i, j, pv)
    expect(c["m"] < 2 or not np.allclose(s[0], s[1]), "rows share their draws")
    # concentrations over many decades
    b = np.exp(r.uniform(np.log(1e-6), np.log(1e6), (c["m"], c["k"])))
    g = np.asarray(sut(D.Dirichlet(b).dist.mean))
    expect(g.shape == b.shape and np.allclose(g, b / b.sum(axis=1, keepdims=True), rtol=1e-9, atol=0), "means %r for %r", g, b)
    one = [np.asarray(sut(D.Dirichlet(x).dist.mean)) for x in b]
    expect(np.allclose(g, one, rtol=1e-12, atol=0), "means %r, row by row %r", g, one)
    s = np.asarray(sut(D.Dirichlet(b).dist.rvs, size=5))
    ok = np.isfinite(s).all(axis=-1)
    expect(s.shape == (c["m"], 5, c["k"]) and (s[ok] >= 0).all() and np.allclose(s[ok].sum(axis=-1), 1), "draws of shape %r for %r", s.shape, b)
    rec.nontrivial(c["m"] > 1)


@st.composite
def mvcase(draw):
    p = draw(st.one_of(st.integers(1, 4), st.integers(1, 7)))
    return {"p": p, "mu": draw(gen.vec(gen.num(-20, 20), p)), "S": draw(gen.spd(p)), "T": draw(gen.spd(p)), "nu": draw(gen.pos(0.3, 300)),
            "z": draw(gen.vec(st.floats(-4, 4), p)), "seed": draw(gen.SEEDS)}


def quadform(S, d):
    return np.einsum("ij,jk,ik->i", d, np.linalg.inv(S), d)


@sub("C09", "law-MultivariateNormal", mvcase(), quick=150, rule="at least two coordinates")
def mvn(c, rec):
    import conjugate.distributions as D

    mu, S = np.array(c["mu"], float), np.array(c["S"], float)
    if np.linalg.cond(S) > 1e5:
        return
    o = D.MultivariateNormal(mu, S)
    x = mu + np.linalg.cholesky(S) @ np.array(c["z"])
    w = ref.mvn(col(x.tolist()), col(c["mu"]), mm(c["S"]))
    expect(abs(M(float(sut(o.dist.logpdf, x))) - w) <= 1e-7 * (1 + abs(w)), "log density %r, should be %s", o.dist.logpdf(x), mp.nstr(w, 12))
    n = 600
    s = np.asarray(sut(o.dist.rvs, size=n, random_state=c["seed"])).reshape(n, c["p"])
    q = np.sort(quadform(S, s - mu))
    expect(cdfs.ks(q, sc.chdtr(c["p"], q)) > cdfs.LIMIT, "draws do not follow the law")
    u = np.sort((s[:, 0] - mu[0]) / S[0, 0] ** 0.5)
    expect(cdfs.ks(u, sc.ndtr(u)) > cdfs.LIMIT, "first coordinate of the draws does not follow the law")
    rec.nontrivial(c["p"] > 1)


@sub("C09", "law-MultivariateStudentT", mvcase(), quick=150, rule="at least two coordinates")
def mvt(c, rec):
    import conjugate.distributions as D

    mu, S = np.array(c["mu"], float), np.array(c["S"], float)
    if np.linalg.cond(S) > 1e5:
        return
    o = D.MultivariateStudentT(mu, S, c["nu"])
    x = mu + np.linalg.cholesky(S) @ np.array(c["z"])
    w = ref.mvt(col(x.tolist()), col(c["mu"]), mm(c["S"]), M(c["nu"]))
    expect(abs(M(float(sut(o.dist.logpdf, x))) - w) <= 1e-7 * (1 + abs(w)) + 1e-9 * c["nu"], "log density %r, should be %s", o.dist.logpdf(x), mp.nstr(w, 12))
    n = 600
    s = np.asarray(sut(o.dist.rvs, size=n, random_state=c["seed"])).reshape(n, c["p"])
    q = np.sort(quadform(S, s - mu) / c["p"])
    expect(cdfs.ks(q, sc.fdtr(c["p"], c["nu"], q)) > cdfs.LIMIT, "draws do not follow the law")
    rec.nontrivial(c["p"] > 1)


def wmk(name):
    def check(c, rec):
        import conjugate.distributions as D

        p = c["p"]
        S, T = np.array(c["S"], float), np.array(c["T"], float)
        if np.linalg.cond(S) * np.linalg.cond(T) > 1e5 or p < 2:
            return
        nu = c["nu"] + p
        o = getattr(D, name)(nu, S)
        f = ref.wishart if name == "Wishart" else ref.invwishart
        w = f(mm(c["T"]), M(nu), mm(c["S"]))
        g = sut(lambda: o.dist.logpdf(T))
        tr = float(np.trace(np.linalg.inv(S) @ T) + np.trace(np.linalg.inv(T) @ S))
        expect(abs(M(float(g)) - w) <= 1e-7 * (1 + abs(w) + nu * 10 + tr), "%s log density %r, should be %s", name, g, mp.nstr(w, 12))
        m = np.asarray(sut(o.dist.mean)) if name == "Wishart" or nu > p + 1.01 else None
        if m is not None:
            want = nu * S if name == "Wishart" else S / (nu - p - 1)
            expect(np.allclose(m, want, rtol=1e-9, atol=1e-12 * np.abs(want).max()), "%s mean %r, should be %r", name, m, want)
        n = 200
        s = np.asarray(sut(o.dist.rvs, size=n, random_state=c["seed"]))
        expect(s.shape == (n, p, p), "draws have shape %r", s.shape)
        if name == "Wishart":
            t = np.trace(np.linalg.inv(S) @ s, axis1=1, axis2=2)
        else:
            t = np.trace(S @ np.linalg.inv(s), axis1=1, axis2=2)
        t = np.sort(t)
        expect(cdfs.ks(t, sc.chdtr(nu * p, t)) > cdfs.LIMIT, "%s(%r, %r): draws do not follow the law", name, nu, S)
        rec.nontrivial()

    return check


for nm in ("Wishart", "InverseWishart"):
    sub("C09", "law-" + nm, mvcase(), quick=100, rule="at least two coordinates")(wmk(nm))


# ------------------------------------------------------------------ joint priors: the component objects
@sub("C09", "joint-components", st.fixed_dictionaries(dict(a=gen.pos(0.05, 100), b=gen.pos(0.05, 100), x=gen.pos(0.01, 100), S=gen.spd(2), nu=gen.pos(2, 100))), quick=100,
     rule="always")
def comps(c, rec):
    import conjugate.distributions as D

    ig = sut(lambda: D.NormalInverseGamma(mu=0, alpha=c["a"], beta=c["b"], nu=1).inverse_gamma)
    agree(sut(ig.dist.pdf, c["x"]), ref.invgamma(M(c["x"]), M(c["a"]), M(c["b"])), 100 * size(c["a"], c["b"]) * (1 + c["b"] / c["x"]), "variance component")
    g = sut(lambda: D.NormalGamma(mu=0, lam=1, alpha=c["a"], beta=c["b"]).gamma)
    agree(sut(g.dist.pdf, c["x"]), ref.gamma(M(c["x"]), M(c["a"]), M(c["b"])), 100 * size(c["a"], c["b"]) * (1 + c["b"] * c["x"]), "precision component")
    S = np.array(c["S"])
    for o, nm in ((sut(lambda: D.NormalInverseWishart(np.zeros(2), 1.0, c["nu"], S).inverse_wishart), "psi"), (sut(lambda: D.NormalWishart(np.zeros(2), 1.0, S, c["nu"]).wishart), "V")):
        expect(o.nu == c["nu"] and np.array_equal(getattr(o, nm), S), "component %r", o)
        f = ref.invwishart if nm == "psi" else ref.wishart
        w = f(mm([[1, 0.2], [0.2, 2]]), M(c["nu"]), mm(c["S"]))
        gg = sut(lambda: o.dist.logpdf(np.array([[1, 0.2], [0.2, 2]])))
        expect(abs(M(float(gg)) - w) <= 1e-7 * (1 + abs(w) + 10 * c["nu"]), "component log density %r, should be %s", gg, mp.nstr(w, 12))
    rec.nontrivial()


# ------------------------------------------------------------------ scales over many decades
def TEN(lo, hi):
    return st.one_of(st.integers(lo, hi).map(lambda e: 10.0 ** e), st.floats(lo, hi).map(lambda e: 10.0 ** e))


# name: (shape parameters, scale parameter, point from the relative point and the scale)
SCALED = {
    "Exponential": ({}, "lam", lambda r, s: r / s),
    "Gamma": (dict(alpha=gen.pos(0.05, 200)), "beta", lambda r, s: r / s),
    "Pareto": (dict(alpha=gen.pos(0.05, 200)), "x_m", lambda r, s: (1 + r) * s),
    "InverseGamma": (dict(alpha=gen.pos(0.05, 200)), "beta", lambda r, s: r * s),
    "ScaledInverseChiSquared": (dict(nu=gen.pos(0.05, 200)), "sigma2", lambda r, s: r * s),
    "Normal": (dict(mu=st.just(0.0)), "sigma", lambda r, s: r * s),
    "StudentT": (dict(mu=st.just(0.0), nu=gen.pos(0.05, 200)), "sigma", lambda r, s: r * s),
    "Lomax": (dict(alpha=gen.pos(0.05, 200)), "lam", lambda r, s: r * s),
    "CompoundGamma": (dict(alpha=gen.pos(0.05, 200), beta=gen.pos(0.05, 200)), "lam", lambda r, s: r * s),
    "Weibull": (dict(beta=gen.pos(0.1, 20)), "theta", lambda r, s: r),
}


@sub("C09", "scales-over-many-decades", st.sampled_from(sorted(SCALED)).flatmap(lambda n: st.fixed_dictionaries(dict(
    name=st.just(n), shape=st.fixed_dictionaries(SCALED[n][0]), e=TEN(-9, 9), r=st.lists(gen.pos(0.01, 10), min_size=1, max_size=4),
    arr=st.booleans()))), quick=500, thorough=20000, rule="scale below 1e-3 or above 1e3")
def scales(c, rec):
    d = dists.BY_KEY[c["name"]]
    shape, sc_, pt = SCALED[c["name"]]
    s = c["e"]
    if c["name"] == "Weibull":
        # theta scales x ** beta: x = theta ** (1/beta) * relative point
        pt = lambda r, s_: r * s_ ** (1 / c["shape"]["beta"])
    p = dict(c["shape"], **{sc_: s})
    a = {k: np.array([v, v]) for k, v in p.items()} if c["arr"] else p
    dist = sut(lambda: d.make(a).dist)
    for r in c["r"]:
        x = pt(r, s)
        if not (1e-100 < x < 1e100):
            continue
        w = d.logp(x, p)
        what = "%s%r %s(%r)" % (d.name, a, d.pm, x)
        mag = size(*c["shape"].values()) * 10 + 100 * (1 + (float(abs(w)) if w != -mp.inf else 0)) + abs(math.log(s)) * 100
        if c["name"] == "Weibull":
            mag += 1000 * c["shape"]["beta"] * (1 + r ** c["shape"]["beta"])
        for v in np.ravel(sut(getattr(dist, d.pm), x)):
            agree(v, w, mag, what)
        if d.key not in NOCDF and c["name"] != "Weibull":
            wc = cdfs.cdf(d, x, p)
            for v in np.ravel(sut(dist.cdf, x)):
                expect(abs(float(v) - wc) <= 1e-7, "%s%r cdf(%r) = %r, should be %r", d.name, a, x, v, wc)
    rec.nontrivial(not 1e-3 <= s <= 1e3)
    rec.label(c["name"])


# ------------------------------------------------------------------ laws centred far away
@sub("C09", "far-locations", st.fixed_dictionaries(dict(name=st.sampled_from(["Normal", "StudentT", "LogNormal", "Uniform", "VonMises"]), e=TEN(-2, 9), sign=st.booleans(),
     s=gen.pos(0.1, 50), nu=gen.pos(0.3, 200), z=st.lists(gen.real(5), min_size=1, max_size=4), arr=st.booleans())), quick=400, thorough=20000, rule="location beyond 10")
def faraway(c, rec):
    name, mu, s = c["name"], (-1 if c["sign"] else 1) * c["e"], c["s"]
    if name == "LogNormal":
        mu = math.copysign(min(abs(mu), 200.0), mu)
        p, pt = dict(mu=mu, sigma=min(s, 5.0)), lambda z: math.exp(mu + z * min(s, 5.0))
    elif name == "Uniform":
        p, pt = dict(low=mu, high=mu + s), lambda z: mu + s * (0.5 + z / 6)
    elif name == "VonMises":
        mu = math.copysign(min(abs(mu), 1000.0), mu)  # a direction is meant modulo a turn
        p, pt = dict(mu=mu, kappa=s), lambda z: z
    else:
        p, pt = dict(mu=mu, sigma=s, **({"nu": c["nu"]} if name == "StudentT" else {})), lambda z: mu + s * z
    d = dists.BY_KEY[name]
    a = {k: np.array([v, v]) for k, v in p.items()} if c["arr"] else p
    dist = sut(lambda: d.make(a).dist)
    for z in c["z"]:
        x = pt(z)
        if name == "Uniform" and min(abs(x - p["low"]), abs(x - p["high"])) < 1e-3 * s:
            continue
        if not (1e-120 < abs(x) < 1e120 or name != "LogNormal"):
            continue
        w = d.logp(x, p)
        what = "%s%r pdf(%r)" % (name, a, x)
        # the point and the location are rounded: what that does to the density
        mag = 1e3 * (1 + abs(z) * c["nu"] + z * z) + 1e3 * (1 + abs(float(w)) if w != -mp.inf else 1) * (1 + abs(mu) * (1 + abs(z)) / s + (abs(mu) * s if name == "VonMises" else 0))
        if mag > 1e11:
            continue
        for v in np.ravel(sut(dist.pdf, x)):
            agree(v, w, mag, what)
        if name == "VonMises":
            continue
        wc = cdfs.cdf(d, x, p)
        for v in np.ravel(sut(dist.cdf, x)):
            expect(abs(float(v) - wc) <= 1e-7 + 1e-14 * abs(mu) * (1 + abs(z)) / min(s, 5.0 if name == "LogNormal" else s), "%s%r cdf(%r) = %r, should be %r", name, a, x, v, wc)
        if name in ("Normal", "Uniform", "StudentT") and (name != "StudentT" or c["nu"] > 2.1):
            for v in np.ravel(sut(dist.mean)):
                m = mu + (s / 2 if name == "Uniform" else 0)
                expect(abs(float(v) - m) <= 1e-12 * (abs(mu) + s), "%s%r mean %r, should be %r", name, a, v, m)
            for v in np.ravel(sut(dist.std)):
                m = s / math.sqrt(12) if name == "Uniform" else s if name == "Normal" else s * math.sqrt(c["nu"] / (c["nu"] - 2))
                expect(abs(float(v) - m) <= 1e-9 * m + 1e-15 * abs(mu), "%s%r standard deviation %r, should be %r", name, a, v, m)
    rec.nontrivial(abs(mu) > 10)
    rec.label(name)


# ------------------------------------------------------------------ posteriors after very many observations
BIG = TEN(2, 7)
NARROW = {
    "Beta": dict(alpha=BIG, beta=BIG), "Gamma": dict(alpha=BIG, beta=TEN(-3, 7)), "InverseGamma": dict(alpha=BIG, beta=TEN(-3, 7)),
    "ScaledInverseChiSquared": dict(nu=BIG, sigma2=TEN(-3, 3)), "Lomax": dict(alpha=BIG, lam=TEN(-3, 7)), "Pareto": dict(x_m=TEN(-3, 3), alpha=BIG),
    "StudentT": dict(mu=gen.num(-5, 5), sigma=TEN(-3, 3), nu=BIG), "CompoundGamma": dict(alpha=BIG, beta=BIG, lam=TEN(-3, 3)),
    "NegativeBinomial": dict(n=TEN(2, 5), p=gen.prob(1e-2)), "Poisson": dict(lam=TEN(2, 6)),
    "BetaBinomial": dict(n=gen.integer(1, 5000), alpha=BIG, beta=BIG), "BetaGeometric-1": dict(alpha=BIG, beta=BIG), "BetaGeometric-0": dict(alpha=BIG, beta=BIG),
    "Normal": dict(mu=gen.real(5), sigma=TEN(-7, 0)), "LogNormal": dict(mu=gen.num(-5, 5), sigma=TEN(-5, 0)),
}


@sub("C09", "concentrated-shapes", st.sampled_from(sorted(NARROW)).flatmap(lambda n: st.fixed_dictionaries(dict(
    name=st.just(n), p=st.fixed_dictionaries(NARROW[n]), z=st.lists(st.floats(-4, 4), min_size=1, max_size=4), arr=st.booleans()))),
     quick=400, thorough=20000, rule="a point inside the support")
def concentrated(c, rec):
    d = dists.BY_KEY[c["name"]]
    p = d.fix(c["p"])
    P = {k: M(v) for k, v in p.items()}
    if d.name == "CompoundGamma":
        a, b = P["alpha"], P["beta"]
        m = P["lam"] * a / (b - 1)
        s = P["lam"] * mp.sqrt(a * (a + b - 1) / (b - 2)) / (b - 1)
    elif d.name == "BetaGeometric":
        m = s = P["beta"] / P["alpha"]
    else:
        m, s = d.mean(P), mp.sqrt(d.var(P))
    obj = {k: np.array([v, v]) for k, v in p.items()} if c["arr"] else p
    dist = sut(lambda: d.make(obj).dist)
    inside = 0
    for z in c["z"]:
        x = float(m + z * s) if d.continuous else int(mp.floor(m + z * s))
        if not d.continuous and abs(x) > 10**9:
            continue
        w = d.logp(x, p)
        if w == -mp.inf or w < -600:
            continue
        inside += 1
        what = "%s%r %s(%r)" % (d.name, obj, d.pm, x)
        # log densities are sums of terms of about this size; a relative error of the point moves them by about as much
        mag = size(x if not d.continuous else 1, *p.values())
        if d.name in ("Normal", "LogNormal", "StudentT"):
            mag += 10 * float((1 + abs(P["mu"])) / P["sigma"])
        for v in np.ravel(sut(getattr(dist, d.pm), x)):
            agree(v, w, mag, what, rel=1e-13)
    rec.nontrivial(inside)
    rec.label(c["name"])


EDGE = [0.0, 1.0]
TINY = st.one_of(st.sampled_from(EDGE), TEN(-12, -1), TEN(-12, -1).map(lambda v: 1 - v), st.floats(1e-12, 1))


@sub("C09", "probabilities-at-and-near-the-ends", st.fixed_dictionaries(dict(
    name=st.sampled_from(["Binomial", "Geometric-1", "Geometric-0", "NegativeBinomial", "Poisson", "Multinomial"]), p=TINY, n=gen.integer(1, 60),
    x=st.lists(st.integers(-1, 61), min_size=1, max_size=4), arr=st.booleans())), quick=400, thorough=20000,
    rule="probability within 0.001 of zero or one")
def ends(c, rec):
    """p = 0 and p = 1 are laws too: all the mass on one outcome"""
    import conjugate.distributions as D

    p, n, name = c["p"], c["n"], c["name"]
    if name in ("Geometric-1", "Geometric-0", "NegativeBinomial") and p < 1e-6:
        p = 1 - p
    P, N = M(p), M(n)
    xlog = lambda k, q: mp.mpf(0) if k == 0 else (k * mp.log(q) if q > 0 else -mp.inf)
    A = lambda v: np.array([v, v]) if c["arr"] else v
    xs = c["x"] + [0, 1, n]
    off = 1 if name == "Geometric-1" else 0
    if name == "Binomial":
        dist = sut(lambda: D.Binomial(n=A(n), p=A(p)).dist)
        lp = lambda x: ref.lchoose(N, x) + xlog(x, P) + xlog(N - x, 1 - P) if 0 <= x <= n else -mp.inf
    elif name.startswith("Geometric"):
        dist = sut(lambda: D.Geometric(p=A(p), one_start=bool(off)).dist)
        lp = lambda x: mp.log(P) + xlog(x - off, 1 - P) if x >= off else -mp.inf
    elif name == "NegativeBinomial":
        dist = sut(lambda: D.NegativeBinomial(n=A(n), p=A(p)).dist)
        lp = lambda x: ref.lg(x + N) - ref.lg(N) - ref.lg(M(x + 1)) + N * mp.log(P) + xlog(x, 1 - P) if x >= 0 else -mp.inf
    elif name == "Poisson":
        dist = sut(lambda: D.Poisson(lam=A(p)).dist)
        lp = lambda x: xlog(x, P) - P - ref.lg(M(x + 1)) if x >= 0 else -mp.inf
    else:
        q = [p, (1 - p) / 4, (1 - p) * 3 / 4]
        q.sort()  # scipy derives the last probability from the others: make that the largest
        q[2] = 1 - q[0] - q[1]
        dist = sut(lambda: D.Multinomial(n=n, p=np.array(q)).dist)
        for x in xs:
            if not 0 <= x <= n:
                continue
            for v in ([x, n - x, 0], [n - x, x, 0], [0, x, n - x]):
                w = ref.lg(N + 1) - mp.fsum(ref.lg(M(k + 1)) for k in v) + mp.fsum(xlog(k, M(u)) for k, u in zip(v, q))
                agree(sut(dist.pmf, v), w, size(n, n, n) * 10, "Multinomial(%r, %r) pmf(%r)" % (n, q, v))
        rec.nontrivial(min(p, 1 - p) < 1e-3)
        return
    for x in xs:
        w = lp(x)
        for v in np.ravel(sut(dist.pmf, x)):
            agree(v, w, size(n, n) * 10 + (float(abs(w)) if w != -mp.inf else 0), "%s (p=%r, n=%r) pmf(%r)" % (name, p, n, x))
    Q = P if P else M(1)
    m = {"Binomial": N * P, "Geometric-1": 1 / Q, "Geometric-0": 1 / Q - 1, "NegativeBinomial": N * (1 - P) / Q, "Poisson": P}[name]
    if P or name in ("Binomial", "Poisson"):
        for v in np.ravel(sut(dist.mean)):
            expect(abs(M(float(v)) - m) <= 1e-7 * abs(m) + (1e-14 if off or name == "Geometric-0" else 0) + mp.mpf(10) ** -30, "%s (p=%r, n=%r) mean %r, should be %s", name, p, n, v, mp.nstr(m, 12))
    rec.nontrivial(min(p, 1 - p) < 1e-3)
    rec.label(name)
