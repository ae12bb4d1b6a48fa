"""C05: predictives are the marginal of the likelihood."""
import math

import mpmath as mp
import numpy as np
from hypothesis import strategies as st

from pbt import gen, mvmodels as mv, preds, ref
from pbt.core import expect, fail, sub, sut
from pbt.models import TEN, mostly
from pbt.ref import M, col, mm


def agree(got, want_log, mag, what, rel=1e-9):
    """got: density or mass from the code; want_log: exact log value"""
    got = float(got)
    expect(got == got, "%s is nan", what)
    if want_log == -mp.inf:
        expect(got == 0, "%s = %r outside the support", what, got)
        return
    tol = rel * mag
    if want_log < -600:
        expect(got < 1e-200, "%s = %r, should be exp(%s)", what, got, mp.nstr(want_log, 8))
        return
    expect(got > 0, "%s = %r, should be %s", what, got, mp.nstr(mp.exp(want_log), 8))
    d = abs(mp.log(M(got)) - want_log)
    expect(d <= tol, "%s = %r, should be %s", what, got, mp.nstr(mp.exp(want_log), 15))


def size(*vals):
    """magnitude of the log-gamma terms a double precision implementation adds up"""
    s = 20.0
    for v in vals:
        v = abs(float(v))
        s += v * (1 + abs(math.log(v + 1e-3))) + abs(math.log(v + 1e-6))
    return s


@st.composite
def case(draw, p):
    args = {k: draw(s) for k, s in p.args.items()}
    return {
        "f": {k: draw(s) for k, s in p.fields.items()}, "args": args,
        "x": draw(st.lists(p.x(args), min_size=1, max_size=6)), "t": draw(p.theta),
        "kind": draw(gen.KIND),
        "default_n": draw(st.booleans()),
    }


def mk(p):
    def check(c, rec):
        args = dict(c["args"])
        if p.name == "poisson_gamma_predictive" and args["n"] == 1 and c["default_n"]:
            args = {}  # the documented default
        d = sut(preds.make_dist, p, c["f"], c["kind"])
        pred = sut(preds.call, p, d, args, c["kind"])
        t = M(c["t"])
        fn = sut(lambda: getattr(pred.dist, p.kind))
        got = np.asarray(sut(fn, np.array(c["x"], dtype=float if p.kind == "pdf" else int)))
        expect(got.shape == (len(c["x"]),), "%s: %d outcomes, values of shape %r", p.name, len(c["x"]), got.shape)
        mags = [v for v in c["f"].values()] + [v for v in c["args"].values()]
        inside = 0
        for x, g in zip(c["x"], got):
            w = p.logmarg(c["f"], c["args"], x, t)
            inside += w != -mp.inf
            agree(g, w, size(x if p.kind == "pmf" else 1, *mags), "%s%r%s %s(%r)" % (p.name, c["f"], c["args"], p.kind, x))
            g1 = sut(fn, x)
            expect(abs(float(g1) - float(g)) <= 1e-9 * abs(float(g)), "%s: scalar outcome gives %r, array gives %r", p.name, g1, g)
        rec.nontrivial(inside >= 1)
        rec.label(c["kind"][:3], "some outside support" if inside < len(c["x"]) else "all inside")

    return check


for p in preds.PREDS:
    sub("C05", "marginal-" + p.key, case(p), quick=150, thorough=6000, rule="at least one outcome inside the support")(mk(p))


@sub("C05", "poisson-exposure-range", st.fixed_dictionaries(dict(
    alpha=gen.pos(1e-2, 100), beta=gen.pos(1e-9, 1e9), n=gen.pos(1e-6, 1e9), x=st.integers(0, 3))), quick=200, thorough=4000,
    rule="rate and exposure differ by a factor of at least 1000")
def exposure(c, rec):
    """exposure and prior rate of very different sizes: the first few probabilities keep their relative accuracy"""
    import conjugate.distributions as D
    import conjugate.models as F

    a, b, n, x = M(c["alpha"]), M(c["beta"]), M(c["n"]), c["x"]
    pred = sut(F.poisson_gamma_predictive, distribution=D.Gamma(c["alpha"], c["beta"]), n=c["n"])
    w = mp.loggamma(a + x) - mp.loggamma(a) - mp.loggamma(x + 1) + a * mp.log(b / (b + n)) + x * mp.log(n / (b + n))
    # the success probability is a double: what it misses of 1 is known to 2**-53 only
    tol = mp.mpf("1e-9") * (20 + a) + x * mp.mpf(2) ** -52 * (b + n) / n
    g = float(sut(pred.dist.pmf, x))
    if w > -600 and tol < mp.mpf("0.01"):
        expect(g > 0 and abs(mp.log(M(g)) - w) <= tol, "poisson_gamma_predictive(n=%r, Gamma(%r, %r)): pmf(%d) = %r, should be %s",
               c["n"], c["alpha"], c["beta"], x, g, mp.nstr(mp.exp(w), 15))
        rec.nontrivial(b > 1000 * n or n > 1000 * b)
        rec.label("exposure dominates" if n > 1000 * b else "rate dominates" if b > 1000 * n else "comparable")


# totals: proper distributions on small supports
@sub("C05", "total-mass", st.fixed_dictionaries(dict(
    a=gen.pos(0.05, 50), b=gen.pos(0.05, 50), n=gen.integer(1, 200), k=st.integers(0, 3))), quick=150, rule="always")
def total(c, rec):
    import conjugate.distributions as D
    import conjugate.models as F

    if c["k"] <= 1:
        n = c["n"] if c["k"] == 0 else 1
        d = D.Beta(c["a"], c["b"])
        pred = sut(F.binomial_beta_predictive, n=n, distribution=d) if c["k"] == 0 else sut(F.bernoulli_beta_predictive, distribution=d)
        s = float(np.sum(sut(pred.dist.pmf, np.arange(0, n + 1))))
    else:
        d = D.Gamma(c["a"], c["b"] + 0.5)
        pred = sut(F.poisson_gamma_predictive, distribution=d, n=min(c["n"], 20))
        hi = int(min(c["n"], 20) * c["a"] / (c["b"] + 0.5) * 60 + 4000)
        s = float(np.sum(sut(pred.dist.pmf, np.arange(0, hi))))
    expect(abs(s - 1) < 1e-6, "total mass %r", s)
    rec.nontrivial()


# ------------------------------------------------------------------ Dirichlet
@st.composite
def dcase(draw):
    k = draw(st.one_of(st.integers(2, 5), st.integers(2, 16)))
    x = draw(gen.vec(gen.integer(0, 500), k))
    if draw(st.booleans()):
        x = [0] * k
        x[draw(st.integers(0, k - 1))] = 1
    if sum(x) == 0:
        x[0] = 1
    return {"alpha": draw(gen.vec(draw(st.sampled_from([gen.pos(1e-2, 1e3), gen.pos(1e-5, 1e3), gen.pos(1e-5, 1e6)])), k)), "x": x, "t": draw(gen.simplex(k)), "default": draw(st.booleans()),
            "wrong": draw(st.booleans())}


def dmk(name):
    def check(c, rec):
        import conjugate.distributions as D
        import conjugate.models as F

        n = sum(c["x"])
        kw = {} if n == 1 and c["default"] else {"n": n}
        pred = sut(getattr(F, name), distribution=D.Dirichlet(np.array(c["alpha"], float)), **kw)
        t = M(c["t"])
        t = [v / mp.fsum(t) for v in t]
        a, x = M(c["alpha"]), M(c["x"])
        w = ref.dirichlet(t, a) + ref.multinomial(x, t) - ref.dirichlet(t, [u + v for u, v in zip(a, x)])
        g = sut(pred.dist.pmf, np.array(c["x"]))
        agree(g, w, size(n, *c["alpha"]), "%s pmf(%r)" % (name, c["x"]))
        if c["wrong"]:
            y = list(c["x"])
            y[0] += 1
            agree(sut(pred.dist.pmf, np.array(y)), -mp.inf, 1, "%s with n=%d pmf(%r)" % (name, n, y))
        rec.nontrivial(n > 1 or sum(c["alpha"]) != len(c["alpha"]))
        rec.label("n=1" if n == 1 else "n>1")

    return check


for nm in ("categorical_dirichlet_predictive", "multinomial_dirichlet_predictive"):
    sub("C05", "marginal-" + nm, dcase(), quick=400, rule="several trials or non-uniform parameters")(dmk(nm))

# ------------------------------------------------------------------ multivariate
MVP = {
    "multivariate_normal_known_covariance_predictive": mv.MV[0],
    "multivariate_normal_known_precision_predictive": mv.MV[1],
    "multivariate_normal_predictive": mv.MV[3],
    "linear_regression_predictive": "linear_regression",
}


@st.composite
def mvcase(draw, model):
    p = draw(st.integers(1, 4))
    c = {"p": p, "prior": draw(mv.prior_st(model, p)), "known": draw(mv.known_st(model, p)), "t": draw(mv.theta_st(model, p))}
    if model == "linear_regression":
        m = draw(st.integers(1, 5))
        rows = [[r, 1] for r in draw(gen.mat(mv.E, m, p + 1))]
        if draw(st.integers(0, 3)) == 0:  # many design rows, the same few over and over
            for r in rows:
                r[0] = [v / 10 for v in r[0]]
                r[1] = draw(gen.integer(1, 60))
        c["rows"] = rows
    else:
        c["rows"] = [[draw(gen.vec(mv.E, p)), 1]]
    return c


def mvpred(name, c):
    import conjugate.models as F

    model = MVP[name]
    d = mv.make_prior(model, c["prior"])
    kw = {k: np.array(v, float) for k, v in c["known"].items()}
    if model == "linear_regression":
        R = np.array([r for r, m in c["rows"] for _ in range(m)], float)
        return sut(getattr(F, name), distribution=d, X=R[:, : c["p"]].copy()), R[:, c["p"]].copy()
    return sut(getattr(F, name), distribution=d, **kw), np.array(c["rows"][0][0], float)


def mvlogmarg(model, c):
    p = c["p"]
    kw = mv.stats(model, p, c["rows"], c["known"])
    up = mv.update(model, p, c["prior"], c["known"], c["rows"], kw)
    t = c["t"]
    f = {}
    for k, (v, _) in up.items():
        f[k] = v
    mu = col(t["mu"])
    if model in mv.MV[:2]:
        post = ref.mvn(mu, f["mu"], f["cov"])
    elif model == mv.MV[3]:
        post = ref.niw(mu, mm(t["S"]), f["mu"], f["kappa"], f["nu"], f["psi"])
    else:
        post = ref.nig_nd(mu, M(t["s2"]), f["mu"], f["delta_inverse"], f["alpha"], f["beta"])
    return mv.logprior(model, c["prior"], t) + mv.loglik(model, p, c["rows"], c["known"], t) - post


def mvmk(name):
    model = MVP[name]

    def check(c, rec):
        pred, x = mvpred(name, c)
        w = mvlogmarg(model, c)
        k = mv.cond(model, c["prior"], c["known"])
        if k > 1e6:
            return
        g = sut(lambda: pred.dist.logpdf(x))
        big = float(np.abs(x).max()) + sum(float(np.abs(np.asarray(v, float)).max()) for v in c["prior"].values())
        tol = 1e-10 * k * (abs(w) + big + 100)
        if model == "linear_regression":  # the condition of I + X V X', which the density inverts
            X = np.array([r[: c["p"]] for r, m in c["rows"] for _ in range(m)], float)
            tol += 1e-13 * (1 + np.linalg.norm(X) ** 2 * np.linalg.norm(np.array(c["prior"]["delta_inverse"], float))) * (
                abs(w) + 2 * c["prior"]["alpha"] + 100)
        expect(abs(M(float(g)) - w) <= tol, "%s: log density %r, marginal is %s", name, g, mp.nstr(w, 15))
        rec.nontrivial(c["p"] >= 2 or len(c["rows"]) > 1)
        rec.label("p=%d" % c["p"], "rows=%d" % len(c["rows"]), "many rows" if sum(m for _, m in c["rows"]) > 20 else "few rows")

    return check


for nm in MVP:
    sub("C05", "marginal-" + nm, mvcase(MVP[nm]), quick=200, thorough=5000, rule="dimension or number of rows at least 2")(mvmk(nm))


# ------------------------------------------------------------------ parameter laws of every concentration, from vague to certain
LAW = {
    "BetaBinomial": lambda x, q: ref.betabinom(x, q["n"], q["alpha"], q["beta"]),
    "BetaNegativeBinomial": lambda x, q: ref.betanbinom(x, q["n"], q["alpha"], q["beta"]),
    "BetaGeometric": lambda x, q: ref.betageom(x, q["alpha"], q["beta"], q["one_start"]),
    # (a success probability that rounds to 1 leaves the mass at no failures)
    "NegativeBinomial": lambda x, q: ref.nbinom(x, q["n"], q["p"]) if x else q["n"] * mp.log(q["p"]),
    "Lomax": lambda x, q: ref.lomax(x, q["alpha"], q["lam"]),
    "CompoundGamma": lambda x, q: ref.compound_gamma(x, q["alpha"], q["beta"], q["lam"]),
    "Normal": lambda x, q: ref.normal(x, q["mu"], q["sigma"]),
    "StudentT": lambda x, q: ref.student(x, q["mu"], q["sigma"], q["nu"]),
}


@st.composite
def fcase(draw, p):
    loc = mostly(gen.real(100), gen.real(1e6), 1)
    args = {k: draw(s if k in ("r",) or (k == "n" and p.dist == "Beta") else loc if k == "mu" else mostly(s, TEN)) for k, s in p.args.items()}
    f = {k: draw(loc if k == "mu" else mostly(s, TEN)) for k, s in p.fields.items()}
    xs = p.x(args) if p.kind == "pmf" else mostly(p.x(args), TEN if p.support else st.builds(lambda m, s, t: m + s * t, st.just(f.get("mu", args.get("mu", 0.0))), st.sampled_from([-1, 1]), TEN))
    return {"f": f, "args": args, "x": draw(st.lists(xs, min_size=1, max_size=4)), "t": draw(p.theta), "kind": draw(gen.KIND)}


def fmk(p):
    def check(c, rec):
        d = sut(preds.make_dist, p, c["f"], c["kind"])
        pred = sut(preds.call, p, d, c["args"], c["kind"])
        name = type(pred).__name__
        expect(name in LAW, "%s returned %s", p.name, name)
        q = {k: v if isinstance(v, bool) else M(float(v)) for k, v in vars(pred).items() if k[0] != "_"}
        with mp.workdps(80):
            decided = 0
            for x in c["x"]:
                w = p.logmarg(c["f"], c["args"], x, M(c["t"]))
                if w == -mp.inf or (x == 0 and p.kind == "pdf"):
                    continue
                # what one rounding of each parameter of the predictive can move
                moved = mp.mpf(0)
                try:
                    g = LAW[name](M(x), q)
                    for k, v in q.items():
                        if k != "one_start" and v != 0:
                            moved += abs(LAW[name](M(x), {**q, k: v * (1 - mp.mpf(2) ** -51)}) - g)
                except (ValueError, ZeroDivisionError):
                    g = mp.nan
                if not (mp.isfinite(g) and mp.isfinite(moved)):
                    # only where the exact success probability is within a rounding of 1
                    a = c["args"]
                    if name == "NegativeBinomial" and q["p"] == 1 and M(a["n"]) / (M(a["n"]) + M(c["f"]["beta"])) < mp.mpf(2) ** -52:
                        rec.label("probability rounds to 1")
                        continue
                    fail("%s%r%s: predictive %s is not a law on its support" % (p.name, c["f"], c["args"], pred))
                tol = mp.mpf("1e-9") + 4 * moved
                if tol > mp.mpf("0.01") or mp.im(g) != 0:
                    rec.label("too sharp")
                    continue
                decided += 1
                expect(abs(g - w) <= tol, "%s%r%s: predictive %s has log %s(%r) = %s, should be %s", p.name, c["f"], c["args"],
                       pred, p.kind, x, mp.nstr(g, 15), mp.nstr(w, 15))
        vs = [abs(float(v)) for k, v in c["f"].items() if k != "mu"]
        rec.nontrivial(decided > 0 and (min(vs) < 1e-3 or max(vs) > 1e4))
        rec.label("vague" if min(vs) < 1e-3 else "", "concentrated" if max(vs) > 1e4 else "")

    return check


for p in preds.PREDS:
    sub("C05", "far-" + p.key, fcase(p), quick=60, thorough=3000,
        rule="an outcome inside the support under a hyperparameter below 1e-3 or above 1e4")(fmk(p))


@st.composite
def fdcase(draw):
    c = draw(dcase())
    c["alpha"] = [draw(mostly(gen.pos(1e-2, 1e3), TEN, 2)) for _ in c["alpha"]]
    c["x"] = [v % 7 if draw(st.booleans()) else v for v in c["x"]]
    if sum(c["x"]) == 0:
        c["x"][-1] = 1
    return c


def fdmk(name):
    def check(c, rec):
        import conjugate.distributions as D
        import conjugate.models as F

        n = sum(c["x"])
        pred = sut(getattr(F, name), distribution=D.Dirichlet(np.array(c["alpha"], float)), n=n)
        a, x = M(c["alpha"]), M(c["x"])
        t = [v / mp.fsum(M(c["t"])) for v in M(c["t"])]
        with mp.workdps(80):
            w = ref.dirichlet(t, a) + ref.multinomial(x, t) - ref.dirichlet(t, [u + v for u, v in zip(a, x)])
            got = np.asarray(pred.alpha, float)
            expect(got.shape == (len(a),) and np.all(got > 0), "%s: parameters %r for %r", name, pred.alpha, c["alpha"])
            b = M(got.tolist())
            s = mp.fsum(b)
            g = mp.loggamma(s) - mp.loggamma(s + n) + mp.loggamma(mp.mpf(n) + 1) + mp.fsum(
                mp.loggamma(u + v) - mp.loggamma(u) - mp.loggamma(v + 1) for u, v in zip(b, x))
            expect(int(pred.n) == n, "%s(n=%d): law of %r trials", name, n, pred.n)
            expect(abs(g - w) <= mp.mpf("1e-10") * (abs(w) + n + 10), "%s of %r with n=%d: log pmf(%r) = %s, should be %s",
                   name, c["alpha"], n, c["x"], mp.nstr(g, 15), mp.nstr(w, 15))
        rec.nontrivial(min(c["alpha"]) < 1e-3 or max(c["alpha"]) > 1e4)
        rec.label("vague" if min(c["alpha"]) < 1e-3 else "", "concentrated" if max(c["alpha"]) > 1e4 else "")

    return check


for nm in ("categorical_dirichlet_predictive", "multinomial_dirichlet_predictive"):
    sub("C05", "far-" + nm, fdcase(), quick=150, thorough=5000, rule="a concentration below 1e-3 or above 1e4")(fdmk(nm))


@st.composite
def fmvcase(draw, model):
    c = draw(mvcase(model))
    u = 10.0 ** draw(st.sampled_from([-6, 6, -3, 3, 0, -1, 2]))
    v1, v2 = (lambda v: [x * u for x in v]), (lambda m: [[x * u * u for x in r] for r in m])
    q = c["prior"]
    q["mu"] = v1(q["mu"])
    for k in ("cov", "psi"):
        if k in q:
            q[k] = v2(q[k])
    for k in ("kappa", "alpha", "beta"):
        if k in q:
            q[k] = draw(mostly(gen.pos(0.05, 500), TEN)) * (u * u if k == "beta" else 1.0)
    if "nu" in q:
        q["nu"] = c["p"] - 1 + draw(mostly(gen.pos(0.05, 500), st.floats(-5, 8).map(lambda e: 10.0**e)))
    if "cov" in c["known"]:
        c["known"]["cov"] = v2(c["known"]["cov"])
    if "precision" in c["known"]:
        c["known"]["precision"] = [[x / u / u for x in r] for r in c["known"]["precision"]]
    t = c["t"]
    t["mu"] = v1(t["mu"])
    if "S" in t:
        t["S"] = v2(t["S"])
    if "s2" in t:
        t["s2"] = t["s2"] * u * u
    c["rows"] = [[r[: c["p"]] + [r[-1] * u] if model == "linear_regression" else v1(r), min(m, 3)] for r, m in c["rows"]]
    return {**c, "unit": u}


def fmvmk(name):
    model = MVP[name]

    def check(c, rec):
        k = mv.cond(model, c["prior"], c["known"])
        if k > 1e5:
            return
        pred, x = mvpred(name, c)
        with mp.workdps(60):
            w = mvlogmarg(model, c)
            f = {n: np.asarray(v, float).tolist() for n, v in vars(pred).items()}
            y, loc = col(x.tolist()), col(f["mu"])
            S = mm(f["cov" if model in mv.MV[:2] else "sigma"])
            g = ref.mvn(y, loc, S) if model in mv.MV[:2] else ref.mvt(y, loc, S, M(f["nu"]))
            q = ref.quad(ref.inv(S), y - loc)
        tol = 1e-9 + 1e-11 * k * (abs(w) + 100 + len(x) * 30)
        if model in mv.MV[:2]:
            tol += 1e-11 * k * q
        if model == "linear_regression":
            X = np.array([r[: c["p"]] for r, m in c["rows"] for _ in range(m)], float)
            kk = 1 + np.linalg.norm(X) ** 2 * np.linalg.norm(np.array(c["prior"]["delta_inverse"], float))
            tol += 1e-13 * kk * (abs(w) + q + 100)
        expect(abs(g - w) <= tol, "%s of %r (%r): %r has log density %s at %r, should be %s", name, c["prior"], c["known"], pred,
               mp.nstr(g, 15), x, mp.nstr(w, 15))
        rec.nontrivial(True)
        rec.label("p=%d" % c["p"], "unit %g" % c["unit"])

    return check


for nm in MVP:
    sub("C05", "far-" + nm, fmvcase(MVP[nm]), quick=80, thorough=3000, rule="matrices of condition at most 1e5")(fmvmk(nm))
