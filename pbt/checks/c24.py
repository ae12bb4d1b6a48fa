"""C24: predictives cohere over observation histories."""
import math

import mpmath as mp
import numpy as np
from hypothesis import strategies as st

from pbt import gen, mvmodels as mv, preds, ref
from pbt.checks.c20 import D, F, fd
from pbt.core import expect, sub, sut
from pbt.ref import M, col, mm

STEP = {
    "binomial_beta": lambda x, a: dict(n=a["n"], x=x),
    "bernoulli_beta": lambda x, a: dict(x=x),
    "negative_binomial_beta": lambda x, a: dict(r=a["r"], n=1, x=x),
    "geometric_beta": lambda x, a: dict(x_total=x, n=1),
    "poisson_gamma": lambda x, a: dict(x_total=x, n=a["n"]),
    "exponential_gamma": lambda x, a: dict(x_total=x, n=1),
    "gamma_known_shape": lambda x, a: dict(x_total=x, n=1, alpha=a["alpha"]),
    "normal_known_variance": lambda x, a: dict(x_total=x, n=1, var=a["var"]),
    "normal_known_precision": lambda x, a: dict(x_total=x, n=1, precision=a["precision"]),
    "normal_known_mean": lambda x, a: dict(x_total=x, x2_total=x * x, n=1, mu=a["mu"]),
    "normal": lambda x, a: dict(x_total=x, x2_total=x * x, n=1),
    "normal_normal_inverse_gamma": lambda x, a: dict(x_total=x, x2_total=x * x, n=1),
}
def quant(d, q):
    """an interior point; scipy's beta quantile itself is nan at, for one, Beta(5, 5) and a half"""
    t = float(sut(d.dist.ppf, q))
    return t if t == t else float(sut(d.dist.mean))


# constant arguments belong to the model, the others to the single observation
FIXED = ("var", "precision", "mu", "alpha")
G = gen.pos(5e-2, 1e3)
RR = gen.real(20)
NARROW = {"alpha": gen.pos(5e-2, 1e3), "beta": gen.pos(5e-2, 1e3), "nu": gen.pos(5e-2, 200), "lam": gen.pos(5e-2, 200), "sigma": gen.pos(5e-2, 100), "sigma2": gen.pos(5e-2, 1e3), "mu": RR}
ARG = {"n": gen.integer(1, 2000), "r": gen.integer(1, 100), "alpha": gen.pos(0.1, 100), "var": gen.pos(1e-2, 100), "precision": gen.pos(1e-2, 100), "mu": RR}
GAUSS = ("normal", "normal_normal_inverse_gamma", "normal_known_mean")


def model_of(p):
    return p.name[: -len("_predictive")]


@st.composite
def case(draw, p):
    nm = model_of(p)
    f = {k: draw(NARROW[k]) for k in p.fields}
    fixed = {k: draw(ARG[k]) for k in p.args if k in FIXED}
    obs = []
    for _ in range(draw(st.integers(2, 6))):
        a = {**fixed, **{k: draw(ARG[k]) for k in p.args if k not in FIXED}}
        if p.kind == "pmf":
            lo = 1 if p.consts.get("one_start") else 0
            hi = a["n"] if nm == "binomial_beta" else 1 if nm == "bernoulli_beta" else 3000
            x = draw(gen.integer(lo, hi)) if hi > lo else lo
        elif nm in ("exponential_gamma", "gamma_known_shape"):
            x = draw(gen.pos(1e-3, 1e3))
        else:
            x = draw(RR)
        obs.append([x, a])
    return {"f": f, "obs": obs, "perm": draw(st.permutations(range(len(obs)))), "t": draw(p.theta), "kind": draw(gen.KIND)}


def logp(dist, kind, x):
    """log density; prefers the mass itself so that hand-written ones are used as they are"""
    with np.errstate(all="ignore"):
        v = float(sut(getattr(dist, kind), x))
        if v > 1e-290:
            return math.log(v)
        return None


def chain(p, prior, obs, kind):
    tot, o = 0.0, prior
    for x, a in obs:
        pred = sut(preds.call, p, o, a, kind)
        l = logp(pred.dist, p.kind, x)
        if l is None:
            return None, None
        tot += l
        kw = {k: gen.present(v, kind, k) for k, v in STEP[model_of(p)](x, a).items()}
        o = sut(getattr(F(), model_of(p)), prior=o, **kw, **p.consts)
    return tot, o


def budget(p, c):
    """what the accumulated rounding of log-gamma terms and of sums of squares allows"""
    big = [v for v in c["f"].values()] + [x for x, _ in c["obs"]] + [v for _, a in c["obs"] for v in a.values()]
    s = len(c["obs"]) * sum(20 + abs(v) * (1 + abs(math.log(abs(v) + 1e-3))) + abs(math.log(abs(v) + 1e-6)) for v in map(float, big))
    t = 1e-12 * s + 1e-10
    if model_of(p) in GAUSS:
        f = c["f"]
        b = float(f.get("beta", 0) or f["nu"] * f["sigma2"])
        n = float(f.get("nu", f.get("lam", 0)) or 0) + len(c["obs"])
        m2 = 1 + max(abs(float(v)) for v in [f.get("mu", 0)] + [x for x, _ in c["obs"]] + [a.get("mu", 0) for _, a in c["obs"]]) ** 2
        sh = float(f.get("alpha", f.get("nu", 0))) + len(c["obs"])
        t += 1e-14 * (n * m2 / b) * sh * len(c["obs"]) * (1 + m2 / b)
    return t


def mk(p):
    def check(c, rec):
        prior = sut(preds.make_dist, p, c["f"], c["kind"])
        u, post = chain(p, prior, c["obs"], c["kind"])
        v, post2 = chain(p, prior, [c["obs"][i] for i in c["perm"]], c["kind"])
        if u is None or v is None:
            rec.label("underflow")
            return
        tol = budget(p, c)
        expect(abs(u - v) <= tol, "%s: log probability of the history is %r in one order and %r in another", p.name, u, v)
        t = M(c["t"])
        pf = {k: getattr(post, k) for k in p.fields}
        w = p.lp(c["f"], t) - p.lp({k: M(float(q)) for k, q in pf.items()}, t) + mp.fsum(p.ll(M(x), a, t) for x, a in c["obs"])
        # rounding of the posterior's fields moves its density at an arbitrary point by this much
        ext = {k: float(q) for k, q in pf.items()}
        sens = mp.mpf(0)
        for k, q in ext.items():
            h = abs(q) * 1e-13 + 1e-300
            sens += abs(p.lp({**{a: M(b) for a, b in ext.items()}, k: M(q) + M(h)}, t) - p.lp({a: M(b) for a, b in ext.items()}, t))
        loose = 1 if model_of(p) not in GAUSS else 1 + 1e4 * tol / 1e-10
        expect(abs(M(u) - w) <= tol + 10 * sens * loose, "%s: log probability of the history is %r, prior x likelihood / posterior gives %s", p.name, u, mp.nstr(w, 15))
        rec.nontrivial(len({str(o) for o in c["obs"]}) > 1)
        rec.label("%d observations" % len(c["obs"]))

    return check


for p in preds.PREDS:
    sub("C24", "chain-" + p.key, case(p), quick=150, thorough=5000, rule="observations differ")(mk(p))


# ---------------------------------------------------------------- the package's own densities give the same ratio
LIKE = {
    "binomial_beta": lambda a, t: D().Binomial(n=a["n"], p=t), "bernoulli_beta": lambda a, t: D().Binomial(n=1, p=t), "negative_binomial_beta": lambda a, t: D().NegativeBinomial(n=a["r"], p=t),
    "poisson_gamma": lambda a, t: D().Poisson(lam=t * a["n"]), "exponential_gamma": lambda a, t: D().Exponential(lam=t), "gamma_known_shape": lambda a, t: D().Gamma(alpha=a["alpha"], beta=t),
    "normal_known_variance": lambda a, t: D().Normal(mu=t, sigma=math.sqrt(a["var"])), "normal_known_precision": lambda a, t: D().Normal(mu=t, sigma=a["precision"] ** -0.5),
    "normal_known_mean": lambda a, t: D().Normal(mu=a["mu"], sigma=math.sqrt(t)),
}


def ratio_mk(p):
    nm = model_of(p)

    def check(c, rec):
        prior = sut(preds.make_dist, p, c["f"], c["kind"])
        u, post = chain(p, prior, c["obs"], c["kind"])
        if u is None:
            return
        # any point gives the same ratio; a quantile of the posterior keeps it away from the extreme tails
        t = quant(post, c["q"])
        if not (math.isfinite(t) and (nm.startswith("normal_known_v") or nm.startswith("normal_known_p") or t > 1e-250) and (p.dist != "Beta" or t < 1 - 1e-9)):
            rec.label("degenerate point")
            return
        tot = float(sut(prior.dist.logpdf, t)) - float(sut(post.dist.logpdf, t))
        for x, a in c["obs"]:
            if nm == "geometric_beta":
                d = D().Geometric(p=t, **p.consts)
            else:
                d = LIKE[nm](a, t)
            tot += float(sut(d.dist.logpmf if p.kind == "pmf" else d.dist.logpdf, x))
        if not math.isfinite(tot):
            rec.label("underflow")
            return
        tol = 100 * budget(p, c) + 1e-7
        expect(abs(u - tot) <= tol, "%s: log probability of the history is %r, the package's prior x likelihood / posterior at %r gives %r", p.name, u, t, tot)
        rec.nontrivial()

    return check


for p in preds.PREDS:
    if p.dist in ("NormalInverseGamma", "NormalGamma"):
        continue
    sub("C24", "ratio-" + p.key, st.builds(lambda c, q: {**c, "q": q}, case(p), st.floats(0.02, 0.98)), quick=80, thorough=2500, rule="ratio is finite")(ratio_mk(p))


# ---------------------------------------------------------------- several trials are several single trials
def near(a, b, what, tol):
    a, b = float(a), float(b)
    expect(a == b or math.isfinite(a) and math.isfinite(b) and abs(float(a) - float(b)) <= tol * max(abs(float(a)), abs(float(b))) + 1e-280, "%s: %r and %r", what, float(a), float(b))


@sub("C24", "binomial-is-many-bernoulli", fd(a=G, b=G, seq=st.lists(st.integers(0, 1), min_size=1, max_size=40)), quick=150, thorough=4000, rule="both outcomes present")
def many_bern(c, rec):
    o = d = D().Beta(c["a"], c["b"])
    s = c["seq"]
    tot = 1.0
    for x in s:
        tot *= float(sut(F().bernoulli_beta_predictive, distribution=o).dist.pmf(x))
        o = sut(F().bernoulli_beta, x=x, prior=o)
    n, x = len(s), sum(s)
    g = float(sut(F().binomial_beta_predictive, n=n, distribution=d).dist.pmf(x))
    near(g, tot * math.comb(n, x), "%d trials with %d successes against single trials" % (n, x), 1e-9)
    q = sut(F().binomial_beta, n=n, x=x, prior=d)
    near(q.alpha, o.alpha, "alpha", 1e-12)
    near(q.beta, o.beta, "beta", 1e-12)
    rec.nontrivial(0 < x < n)


@sub("C24", "dirichlet-draws-one-by-one", st.one_of(st.integers(2, 5), st.integers(2, 12)).flatmap(lambda k: fd(alpha=gen.vec(st.one_of(G, gen.pos(1e-4, 1e3)), k), seq=st.lists(st.integers(0, k - 1), min_size=1, max_size=25), other=st.booleans())), quick=200, thorough=5000, rule="several categories observed")
def dir_chain(c, rec):
    al = np.array(c["alpha"], float)
    k = len(al)
    o = d = D().Dirichlet(al.copy())
    tot, coef = 1.0, mp.factorial(len(c["seq"]))
    name = "multinomial_dirichlet" if c["other"] else "categorical_dirichlet"
    e = np.eye(k, dtype=int)
    cnt = np.zeros(k, int)
    for i in c["seq"]:
        one = sut(getattr(F(), name + "_predictive"), distribution=o, **({"n": 1} if c["other"] else {}))
        pm = [float(sut(one.dist.pmf, e[j])) for j in range(k)]
        expect(abs(sum(pm) - 1) < 1e-9, "one-draw predictive %r", pm)
        tot *= pm[i]
        o = sut(getattr(F(), name), x=e[i], prior=o)
        cnt[i] += 1
    for v in cnt:
        coef /= mp.factorial(int(v))
    g = float(sut(getattr(F(), name + "_predictive"), distribution=d, n=len(c["seq"])).dist.pmf(cnt))
    near(g, mp.mpf(tot) * coef, "%s: counts %r at once against one by one" % (name, cnt.tolist()), 1e-8)
    # the posterior density ratio at any point of the simplex
    t = (al + 1) / (al + 1).sum()
    if tot > 1e-280:
        lr = float(sut(d.dist.logpdf, t)) + float(np.sum(cnt * np.log(t))) - float(sut(o.dist.logpdf, t))
        expect(abs(lr - math.log(tot)) <= 1e-8 * (1 + float(np.abs(al).sum())), "%s: sequence has log probability %r, density ratio %r", name, math.log(tot), lr)
    rec.nontrivial((cnt > 0).sum() > 1)


@sub("C24", "poisson-time-splits", fd(a=gen.pos(0.05, 200), b=gen.pos(0.05, 200), n1=st.one_of(gen.integer(1, 20), gen.pos(0.05, 20)), n2=st.one_of(gen.integer(1, 20), gen.pos(0.05, 20)), x=gen.integer(0, 150)), quick=200, thorough=5000, rule="always")
def poisson_split(c, rec):
    d = D().Gamma(c["a"], c["b"])
    y = np.arange(c["x"] + 1)
    one = sut(lambda: F().poisson_gamma_predictive(distribution=d, n=c["n1"]).dist.pmf(y))
    two = sut(lambda: F().poisson_gamma_predictive(distribution=F().poisson_gamma(x_total=y, n=c["n1"], prior=d), n=c["n2"]).dist.pmf(c["x"] - y))
    g = sut(lambda: F().poisson_gamma_predictive(distribution=d, n=c["n1"] + c["n2"]).dist.pmf(c["x"]))
    near(g, math.fsum(np.asarray(one) * np.asarray(two)), "%d events over %r time units, split after %r" % (c["x"], c["n1"] + c["n2"], c["n1"]), 1e-8)
    rec.nontrivial()


@sub("C24", "negative-binomial-success-splits", fd(a=gen.pos(0.1, 200), b=gen.pos(0.1, 200), r1=st.integers(1, 12), r2=st.integers(1, 12), x=gen.integer(0, 120), geo=st.booleans()), quick=200, thorough=5000, rule="always")
def nb_split(c, rec):
    d = D().Beta(c["a"], c["b"])
    y = np.arange(c["x"] + 1)
    if c["geo"]:
        r1 = 1
        one = sut(lambda: F().geometric_beta_predictive(distribution=d, one_start=False).dist.pmf(y))
        mid = sut(F().geometric_beta, x_total=y, n=1, prior=d, one_start=False)
    else:
        r1 = c["r1"]
        one = sut(lambda: F().negative_binomial_beta_predictive(distribution=d, r=r1).dist.pmf(y))
        mid = sut(F().negative_binomial_beta, r=r1, n=1, x=y, prior=d)
    two = sut(lambda: F().negative_binomial_beta_predictive(distribution=mid, r=c["r2"]).dist.pmf(c["x"] - y))
    g = sut(lambda: F().negative_binomial_beta_predictive(distribution=d, r=r1 + c["r2"]).dist.pmf(c["x"]))
    near(g, math.fsum(np.asarray(one) * np.asarray(two)), "%d failures before success %d, split after %d" % (c["x"], r1 + c["r2"], r1), 1e-7)
    rec.nontrivial()


@sub("C24", "binomial-trial-splits", fd(a=G, b=G, n1=st.integers(1, 80), n2=st.integers(1, 80), f=st.floats(0, 1)), quick=200, thorough=5000, rule="always")
def bin_split(c, rec):
    d = D().Beta(c["a"], c["b"])
    n1, n2 = c["n1"], c["n2"]
    x = round(c["f"] * (n1 + n2))
    y = np.arange(max(0, x - n2), min(n1, x) + 1)
    one = sut(lambda: F().binomial_beta_predictive(distribution=d, n=n1).dist.pmf(y))
    two = sut(lambda: F().binomial_beta_predictive(distribution=F().binomial_beta(n=n1, x=y, prior=d), n=n2).dist.pmf(x - y))
    g = sut(lambda: F().binomial_beta_predictive(distribution=d, n=n1 + n2).dist.pmf(x))
    near(g, math.fsum(np.asarray(one) * np.asarray(two)), "%d successes in %d trials, split after %d" % (x, n1 + n2, n1), 1e-8)
    rec.nontrivial()


NODES = np.polynomial.legendre.leggauss(80)


@sub("C24", "gamma-shape-splits", fd(a=gen.pos(0.2, 100), b=gen.pos(0.2, 100), s1=st.integers(1, 12), s2=st.integers(1, 12), x=gen.pos(0.01, 100)), quick=150, thorough=4000, rule="always")
def gamma_split(c, rec):
    """the total of two gamma times with a common rate, by quadrature over the first"""
    d = D().Gamma(c["a"], c["b"])
    y, w = (NODES[0] + 1) / 2 * c["x"], NODES[1] / 2 * c["x"]
    one = sut(lambda: F().gamma_known_shape_predictive(distribution=d, alpha=c["s1"]).dist.pdf(y))
    two = sut(lambda: F().gamma_known_shape_predictive(distribution=F().gamma_known_shape(x_total=y, n=1, alpha=c["s1"], prior=d), alpha=c["s2"]).dist.pdf(c["x"] - y))
    g = sut(lambda: F().gamma_known_shape_predictive(distribution=d, alpha=c["s1"] + c["s2"]).dist.pdf(c["x"]))
    near(g, math.fsum(w * np.asarray(one) * np.asarray(two)), "density of the total at %r" % c["x"], 1e-7)
    if c["s1"] == c["s2"] == 1:
        e1 = sut(lambda: F().exponential_gamma_predictive(distribution=d).dist.pdf(y))
        e2 = sut(lambda: F().exponential_gamma_predictive(distribution=F().exponential_gamma(x_total=y, n=1, prior=d)).dist.pdf(c["x"] - y))
        near(g, math.fsum(w * np.asarray(e1) * np.asarray(e2)), "density of the total of two waiting times at %r" % c["x"], 1e-7)
    rec.nontrivial()


# ---------------------------------------------------------------- averaging the posterior over the predictive returns the prior
@sub("C24", "posterior-averages-to-prior", fd(which=st.sampled_from(["binomial", "bernoulli", "negative_binomial", "geometric1", "geometric0", "poisson", "exponential", "normal", "normal_prec"]), a=gen.pos(0.3, 50), b=gen.pos(0.3, 50), n=st.integers(1, 40), q=st.floats(0.1, 0.9)), quick=250, thorough=6000, rule="always")
def tower(c, rec):
    w = c["which"]
    f = F()
    normal = w.startswith("normal") and not w.startswith("normal_b")
    heavy = w in ("geometric1", "geometric0", "negative_binomial")
    if normal and w != "normal_prec":
        d = D().Normal(c["a"] - c["b"], math.sqrt(c["b"]))
        var = c["a"]
        # given the parameter, the outcome is this narrow
        sd = math.sqrt(var)
        x = quant(d, c["q"]) + sd * np.linspace(-9, 9, 721)
        wt = np.full(721, sd * 18 / 720)
        pr = sut(lambda: f.normal_known_variance_predictive(var=var, distribution=d).dist.pdf(x)) * wt
        post = sut(f.normal_known_variance, x_total=x, n=1, var=var, prior=d)
    elif w == "normal_prec":
        d = D().Normal(c["a"] - c["b"], math.sqrt(c["b"]))
        sd = math.sqrt(1 / c["a"])
        x = quant(d, c["q"]) + sd * np.linspace(-9, 9, 721)
        wt = np.full(721, sd * 18 / 720)
        pr = sut(lambda: f.normal_known_precision_predictive(precision=c["a"], distribution=d).dist.pdf(x)) * wt
        post = sut(f.normal_known_precision, x_total=x, n=1, precision=c["a"], prior=d)
    elif w in ("poisson", "exponential"):
        d = D().Gamma(c["a"], c["b"])
        if w == "poisson":
            m = c["n"] * (c["a"] + 1) / c["b"]
            x = np.arange(0, int(60 * m + 200))
            pr = sut(lambda: f.poisson_gamma_predictive(n=c["n"], distribution=d).dist.pmf(x))
            post = sut(f.poisson_gamma, x_total=x, n=c["n"], prior=d)
        else:
            u = (NODES[0] + 1) / 2
            # x = u/(1-u)/t: the whole half line
            t = quant(d, c["q"])
            x = u / (1 - u) / t
            wt = NODES[1] / 2 / t / (1 - u) ** 2
            pr = sut(lambda: f.exponential_gamma_predictive(distribution=d).dist.pdf(x)) * wt
            post = sut(f.exponential_gamma, x_total=x, n=1, prior=d)
    else:
        d = D().Beta(c["a"], c["b"])
        if w in ("binomial", "bernoulli"):
            n = c["n"] if w == "binomial" else 1
            x = np.arange(0, n + 1)
            pred = sut(f.binomial_beta_predictive, n=n, distribution=d) if w == "binomial" else sut(f.bernoulli_beta_predictive, distribution=d)
            post = sut(f.binomial_beta, n=n, x=x, prior=d) if w == "binomial" else sut(f.bernoulli_beta, x=x, prior=d)
        else:
            x = np.arange(1 if w == "geometric1" else 0, 20000)
            if w == "negative_binomial":
                pred = sut(f.negative_binomial_beta_predictive, r=c["n"], distribution=d)
                post = sut(f.negative_binomial_beta, r=c["n"], n=1, x=x, prior=d)
            else:
                kw = {"one_start": w == "geometric1"}
                pred = sut(f.geometric_beta_predictive, distribution=d, **kw)
                post = sut(f.geometric_beta, x_total=x, n=1, prior=d, **kw)
        pr = sut(pred.dist.pmf, x)
    t = quant(d, c["q"])
    pr = np.asarray(pr, float)
    if heavy and t < 0.02:
        rec.label("tail longer than the table")
        return
    got = math.fsum(pr * np.asarray(sut(post.dist.pdf, t), float))
    want = float(sut(d.dist.pdf, t))
    expect(abs(got - want) <= (1e-4 if w == "exponential" else 1e-6) * want, "%s: posterior density at %r averages to %r over the predictive, the prior has %r", w, t, got, want)
    rec.nontrivial()
    rec.label(w)


# ---------------------------------------------------------------- multivariate
MVP = {mv.MV[0]: "multivariate_normal_known_covariance_predictive", mv.MV[1]: "multivariate_normal_known_precision_predictive", mv.MV[3]: "multivariate_normal_predictive", "linear_regression": "linear_regression_predictive"}


@st.composite
def mvcase(draw, model):
    p = draw(st.integers(1, 3))
    k = draw(st.integers(2, 5))
    rows = draw(gen.mat(mv.E, k, p + 1 if model == "linear_regression" else p))
    return {"p": p, "prior": draw(mv.prior_st(model, p)), "known": draw(mv.known_st(model, p)), "rows": rows, "perm": draw(st.permutations(range(k))), "t": draw(mv.theta_st(model, p))}


def mvchain(model, c, order):
    p = c["p"]
    o = mv.make_prior(model, c["prior"])
    known = {k: np.array(v, float) for k, v in c["known"].items()}
    tot, parts = 0.0, 0.0
    for i in order:
        row = np.array(c["rows"][i], float)
        f = getattr(F(), MVP[model])
        if model == "linear_regression":
            pred = sut(f, distribution=o, X=row[None, :p].copy())
            l = float(sut(lambda: pred.dist.logpdf(row[p:])))
            o = sut(F().linear_regression, X=row[None, :p].copy(), y=row[p:].copy(), prior=o)
        else:
            pred = sut(f, distribution=o, **known)
            l = float(sut(lambda: pred.dist.logpdf(row)))
            kw = mv.stats(model, p, [[c["rows"][i], 1]], c["known"])
            o = mv.call(model, o, kw)
        tot += l
        parts += abs(l)
    return tot, parts, o


def mvmk(model):
    def check(c, rec):
        k = mv.cond(model, c["prior"], c["known"])
        if k > 1e5:
            return
        p = c["p"]
        n = len(c["rows"])
        u, pu, post = mvchain(model, c, range(n))
        v, pv, _ = mvchain(model, c, c["perm"])
        big = float(np.abs(c["rows"]).max()) ** 2 + sum(float(np.abs(np.asarray(q, float)).max()) ** 2 for q in c["prior"].values())
        if model == "linear_regression":  # the size of mu' D mu, which beta adds and takes away
            big *= 1 + p / float(min(np.linalg.eigvalsh(np.array(c["prior"]["delta_inverse"], float))))
        low = min([1.0] + [float(c["prior"][q]) for q in ("beta",) if q in c["prior"]] + [min(np.linalg.eigvalsh(np.array(c["prior"][q], float))) for q in ("psi",) if q in c["prior"]])
        tol = 1e-12 * k * (pu + pv + big / low * (1 + c["prior"].get("alpha", 1) + c["prior"].get("nu", 1)) + 100)
        expect(abs(u - v) <= tol, "%s: log density of the rows is %r in one order and %r in another", model, u, v)
        rec.label("p=%d" % p)
        if model == "linear_regression":
            R = np.array(c["rows"], float)
            o = mv.make_prior(model, c["prior"])
            j = float(sut(lambda: F().linear_regression_predictive(distribution=o, X=R[:, :p].copy()).dist.logpdf(R[:, p].copy())))
            expect(abs(u - j) <= tol, "regression: joint log density of the rows %r, row by row %r", j, u)
        t = c["t"]
        f = {q: getattr(post, q) for q in c["prior"]}
        data = [[r, 1] for r in c["rows"]]
        a, b = mv.logprior(model, c["prior"], t), mv.logprior(model, f, t)
        w = a + mv.loglik(model, p, data, c["known"], t) - b
        expect(abs(M(u) - w) <= 10 * tol + M(1e-12) * k * (abs(a) + abs(b)), "%s: log density of the rows is %r, prior x likelihood / posterior gives %s", model, u, mp.nstr(w, 15))
        rec.nontrivial(len({str(r) for r in c["rows"]}) > 1)

    return check


for m in MVP:
    sub("C24", "chain-" + m, mvcase(m), quick=200, thorough=4000, rule="rows differ", shards=2)(mvmk(m))
