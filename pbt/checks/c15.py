"""C15: replaceable numeric functions are used everywhere they are needed."""
import math
from fractions import Fraction

import mpmath as mp
import numpy as np
from hypothesis import strategies as st

from pbt import gen, mvmodels as mv, ref
from pbt.checks.c14 import Sym, ev_sym, ident, lift
from pbt.core import expect, fail, sub, sut, sutblock
from pbt.ref import M

P = gen.pos(1e-2, 1e3)
R = gen.real(50)
ANG = st.one_of(st.floats(-3.1, 3.1), st.sampled_from([0.0, 1.0, -2.0]))


def mpi0(x):
    return mp.besseli(0, x)


MPF = dict(ln=mp.log, gammaln=mp.loggamma, sin=mp.sin, cos=mp.cos, arctan2=lambda y, x: mp.atan2(y, x), i0=mpi0, max_fn=lambda a, b: a if a >= b else b)


class Fn:
    """one computation with replaceable scalar functions: run(values, functions) -> {field: value}; want(mp values) -> exact"""

    def __init__(self, name, dom, funcs, run, want):
        self.name, self.dom, self.funcs, self.run, self.want = name, dom, funcs, run, want


def D():
    import conjugate.distributions as d

    return d


def F():
    import conjugate.models as f

    return f


def obj(o, *names):
    return {n: getattr(o, n) for n in names}


def vm_want(v):
    S = v["a"] * mp.sin(v["b"]) + v["kappa"] * v["sin_total"]
    C = v["a"] * mp.cos(v["b"]) + v["kappa"] * v["cos_total"]
    return {"a": mp.sqrt(S * S + C * C), "b": mp.atan2(S, C)}


FNS = [
    Fn("pareto_gamma", dict(alpha=P, beta=P, n=gen.integer(1, 50), ln_x_total=gen.num(300, 1000), x_m=P), ["ln"],
       lambda v, f: obj(F().pareto_gamma(n=v["n"], ln_x_total=v["ln_x_total"], x_m=v["x_m"], prior=D().Gamma(v["alpha"], v["beta"]), **f), "alpha", "beta"),
       lambda v: {"alpha": v["alpha"] + v["n"], "beta": v["beta"] + v["ln_x_total"] - v["n"] * mp.log(v["x_m"])}),
    Fn("uniform_pareto", dict(x_m=P, alpha=P, x_max=P, n=gen.integer(1, 50)), ["max_fn"],
       lambda v, f: obj(F().uniform_pareto(x_max=v["x_max"], n=v["n"], prior=D().Pareto(v["x_m"], v["alpha"]), **f), "x_m", "alpha"),
       lambda v: {"x_m": max(v["x_m"], v["x_max"]), "alpha": v["alpha"] + v["n"]}),
    Fn("von_mises_known_concentration", dict(a=P, b=ANG, kappa=P, sin_total=R, cos_total=R, n=gen.integer(1, 50)), ["sin", "cos", "arctan2"],
       lambda v, f: obj(F().von_mises_known_concentration(cos_total=v["cos_total"], sin_total=v["sin_total"], n=v["n"], kappa=v["kappa"],
                                                          prior=D().VonMisesKnownConcentration(v["a"], v["b"]), **f), "a", "b"),
       vm_want),
    Fn("curve-gamma_known_rate", dict(a=P, b=P, c=P, alpha=P, beta=P), ["ln", "gammaln"],
       lambda v, f: {"v": D().GammaKnownRateProportional(v["a"], v["b"], v["c"]).approx_log_likelihood(v["alpha"], v["beta"], **f)},
       lambda v: {"v": (v["alpha"] - 1) * mp.log(v["a"]) + v["alpha"] * v["c"] * mp.log(v["beta"]) - v["b"] * mp.loggamma(v["alpha"])}),
    Fn("curve-gamma", dict(p=P, q=P, r=P, s=P, alpha=P, beta=P), ["ln", "gammaln"],
       lambda v, f: {"v": D().GammaProportional(v["p"], v["q"], v["r"], v["s"]).approx_log_likelihood(v["alpha"], v["beta"], **f)},
       lambda v: {"v": (v["alpha"] - 1) * mp.log(v["p"]) - v["q"] * v["beta"] - v["r"] * mp.loggamma(v["alpha"]) + v["s"] * v["alpha"] * mp.log(v["beta"])}),
    Fn("curve-beta", dict(p=P, q=P, k=P, alpha=P, beta=P), ["ln", "gammaln"],
       lambda v, f: {"v": D().BetaProportional(v["p"], v["q"], v["k"]).approx_log_likelihood(v["alpha"], v["beta"], **f)},
       lambda v: {"v": v["k"] * (mp.loggamma(v["alpha"] + v["beta"]) - mp.loggamma(v["alpha"]) - mp.loggamma(v["beta"])) + v["alpha"] * mp.log(v["p"])
                  + v["beta"] * mp.log(v["q"])}),
    Fn("curve-von_mises_known_concentration", dict(a=gen.pos(1e-2, 650), b=ANG, mu=ANG), ["cos", "ln", "i0"],
       lambda v, f: {"v": D().VonMisesKnownConcentration(v["a"], v["b"]).log_likelihood(v["mu"], **f)},
       lambda v: {"v": v["a"] * mp.cos(v["mu"] - v["b"]) - mp.log(mpi0(v["a"]))}),
    Fn("curve-von_mises_known_direction", dict(c=P, r=R, kappa=gen.pos(1e-2, 650)), ["ln", "i0"],
       lambda v, f: {"v": D().VonMisesKnownDirectionProportional(v["c"], v["r"]).approx_log_likelihood(v["kappa"], **f)},
       lambda v: {"v": v["kappa"] * v["r"] - v["c"] * mp.log(mpi0(v["kappa"]))}),
]
# the curves are defined up to a constant that does not depend on the unknown parameters
UNKNOWN = {"curve-gamma_known_rate": ["alpha"], "curve-gamma": ["alpha", "beta"], "curve-beta": ["alpha", "beta"],
           "curve-von_mises_known_concentration": ["mu"], "curve-von_mises_known_direction": ["kappa"]}


def values(fn, draw_extra=None):
    @st.composite
    def build(draw):
        v = {a: draw(s) for a, s in sorted(fn.dom.items())}
        w = {a: draw(fn.dom[a]) for a in UNKNOWN.get(fn.name, [])}
        n = draw(st.integers(1, 3))
        return {"v": v, "w": w, "arr": n > 2, "third": draw(st.booleans()), "subset": draw(st.integers(0, 2 ** len(fn.funcs) - 1))}

    return build()


def tomp(v, third):
    """exact multiprecision value; thirds have no short binary expansion, so any double precision step shows"""
    x = M(v)
    return x + x / mp.mpf(3) if third and not isinstance(v, int) else x


def highprec(fn):
    def check(c, rec):
        old = mp.mp.prec
        mp.mp.prec = 300
        try:
            v = {a: (tomp(x, c["third"]) if not isinstance(x, int) else x) for a, x in c["v"].items()}
            funcs = {k: MPF[k] for k in fn.funcs}

            def both(v):
                return sut(fn.run, v, funcs), fn.want({a: M(x) for a, x in v.items()})

            got, want = both(v)
            if c["w"]:
                w = dict(v, **{a: tomp(x, c["third"]) for a, x in c["w"].items()})
                g2, w2 = both(w)
                mag = abs(want["v"]) + abs(w2["v"]) + sum(abs(M(x)) for x in w.values()) ** 2
                d = g2["v"] - got["v"]
                expect(isinstance(d, mp.mpf) and abs(d - (w2["v"] - want["v"])) <= mp.mpf(10) ** -60 * (1 + mag),
                       "%s with high precision functions: difference %s, should be %s", fn.name, mp.nstr(d, 40), mp.nstr(w2["v"] - want["v"], 40))
            else:
                for f, x in want.items():
                    mag = sum(abs(M(y)) for y in v.values()) ** 2 + 1
                    expect(isinstance(got[f], (mp.mpf, int)) and abs(M(got[f]) - x) <= mp.mpf(10) ** -55 * (mag + abs(x)),
                           "%s with high precision functions: %s = %s, should be %s", fn.name, f, mp.nstr(M(got[f]), 40), mp.nstr(x, 40))
        finally:
            mp.mp.prec = old
        rec.nontrivial(c["third"])

    return check


def eq(a, b, rel=1e-13):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((a == b) | (np.isfinite(a) & np.isfinite(b) & (np.abs(a - b) <= rel * np.maximum(np.abs(a), np.abs(b)))) | ((a != a) & (b != b))))


def defaults():
    from scipy.special import gammaln, i0

    return dict(ln=np.log, gammaln=gammaln, sin=np.sin, cos=np.cos, arctan2=np.arctan2, i0=i0, max_fn=np.maximum)


def default_same(fn):
    """any subset of the functions, given as their defaults, changes nothing; a supplied function is called"""

    def check(c, rec):
        v = {a: (np.array([x, x + 0.5]) if c["arr"] and not isinstance(x, int) else x) for a, x in c["v"].items()}
        calls = []
        fs = {}
        for i, k in enumerate(fn.funcs):
            if c["subset"] >> i & 1:
                fs[k] = (lambda d, k: lambda *a: (calls.append(k), d(*a))[1])(defaults()[k], k)
        base, got = sut(fn.run, v, {}), sut(fn.run, v, fs)
        for f in base:
            expect(eq(base[f], got[f]), "%s: %s = %r with the default functions given explicitly (%s), %r without", fn.name, f, got[f], sorted(fs), base[f])
        expect(set(calls) == set(fs), "%s: supplied %s, only %s called", fn.name, sorted(fs), sorted(set(calls)))
        rec.nontrivial(bool(fs))
        rec.label("array" if c["arr"] else "scalar", "%d functions" % len(fs))

    return check


SYMF = dict(ln=math.log, gammaln=math.lgamma, sin=math.sin, cos=math.cos, arctan2=math.atan2, i0=lambda x: float(np.i0(x)), max_fn=max)


def symbolic(fn):
    """symbolic values with symbolic functions: nothing is evaluated early and no built-in function is applied"""

    def check(c, rec):
        def sf(k):
            return lambda *a: Sym(lambda e: SYMF[k](*[lift(x)(e) for x in a]))

        names = [a for a in sorted(fn.dom)]
        v = {a: Sym(lambda e, a=a: e[a]) for a in names}
        got = sut(fn.run, v, {k: sf(k) for k in fn.funcs})
        for e in (c["v"], dict(c["v"], **c["w"])):
            want = sut(fn.run, e, {})
            mag = sum(abs(x) for x in e.values()) ** 2
            for f in want:
                with sutblock("evaluating %s" % f):
                    g = ev_sym(got[f], e)
                expect(abs(g - float(want[f])) <= 1e-9 * (abs(g) + mag), "%s: %s evaluates to %r at %r, numerically %r", fn.name, f, g, e, want[f])
        rec.nontrivial()

    return check


for _f in FNS:
    sub("C15", "high-precision-" + _f.name, values(_f), quick=150, thorough=4000, rule="inputs that double precision cannot hold")(highprec(_f))
    sub("C15", "default-" + _f.name, values(_f), quick=100, thorough=2000, rule="at least one function supplied")(default_same(_f))
    sub("C15", "symbolic-" + _f.name, values(_f), quick=100, thorough=2000, rule="always")(symbolic(_f))


@sub("C15", "large-concentration", st.fixed_dictionaries(dict(a=gen.pos(700, 1e5), b=ANG, m=ANG, c=gen.pos(1e-2, 1e3), r=R)), quick=60, rule="the default Bessel function would overflow")
def large(c, rec):
    """a Bessel function with a wide exponent range gives finite curves where the default one overflows"""
    f = dict(ln=mp.log, i0=mpi0)
    g = sut(D().VonMisesKnownConcentration(M(c["a"]), M(c["b"])).log_likelihood, M(c["m"]), cos=mp.cos, **f)
    w = M(c["a"]) * mp.cos(M(c["m"]) - M(c["b"])) - mp.log(mpi0(M(c["a"])))
    expect(mp.isfinite(g) and abs(g - w) <= mp.mpf(10) ** -40 * (1 + c["a"]), "log_likelihood = %s, should be %s", mp.nstr(g, 20), mp.nstr(w, 20))
    g = sut(D().VonMisesKnownDirectionProportional(M(c["c"]), M(c["r"])).approx_log_likelihood, M(c["a"]), **f)
    w = M(c["a"]) * M(c["r"]) - M(c["c"]) * mp.log(mpi0(M(c["a"])))
    expect(mp.isfinite(g) and abs(g - w) <= mp.mpf(10) ** -35 * (1 + c["a"] * (c["c"] + abs(c["r"]))), "approx_log_likelihood = %s, should be %s", mp.nstr(g, 20), mp.nstr(w, 20))
    rec.nontrivial()


# ------------------------------------------------------------------ matrices
def oarr(v, T):
    a = np.array(v, dtype=object)
    return np.array([T(x) for x in a.ravel()] + [None], dtype=object)[:-1].reshape(a.shape)


def conv(T):
    if T == "mpf":
        return lambda x: M(x) + M(x) / 3
    return lambda x: Fraction(x).limit_denominator(1000)


def gauss(A):
    """inverse of a 2-d object array by Gauss-Jordan elimination in the elements' own arithmetic"""
    A = np.asarray(A)
    if A.ndim != 2:
        raise TypeError("matrix expected")
    n = len(A)
    B = [[A[i, j] for j in range(n)] + [int(i == j) for j in range(n)] for i in range(n)]
    for i in range(n):
        k = max(range(i, n), key=lambda r: abs(B[r][i]))
        B[i], B[k] = B[k], B[i]
        d = B[i][i]
        B[i] = [x / d for x in B[i]]
        for r in range(n):
            if r != i:
                f = B[r][i]
                B[r] = [x - f * y for x, y in zip(B[r], B[i])]
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = B[i][n + j] + 0
    return out


def sqmul(k, A):
    return [[k * x for x in r] for r in A]


def exact_equal(got, want, T, what, tol=None):
    g = np.asarray(got, dtype=object)
    w = np.asarray(want, dtype=object)
    expect(g.shape == w.shape, "%s has shape %r, should be %r", what, g.shape, w.shape)
    m = max([abs(x) for x in w.ravel()] + [0])
    for x, y in zip(g.ravel(), w.ravel()):
        if T == "fraction":
            expect(isinstance(x, (Fraction, int)) and x == y, "%s: %r, the exact value is %r", what, x, y)
        else:
            expect(isinstance(x, (mp.mpf, int)) and abs(x - y) <= mp.mpf(10) ** -35 * (m + (tol or 1)), "%s: %s, should be %s", what, mp.nstr(x, 45), mp.nstr(y, 45))


@st.composite
def matcase(draw, name):
    p = draw(st.integers(1, 3))
    w = p + 1 if name.startswith("linear") else p
    n = draw(st.integers(1, 4))
    E = st.one_of(st.integers(-9, 9), st.floats(-9, 9).map(lambda v: round(v, 2)))
    return {"p": p, "mu": draw(gen.vec(E, p)), "S0": draw(gen.spd(p, 0.3, 3)), "S1": draw(gen.spd(p, 0.3, 3)), "rows": draw(gen.mat(E, n, w)), "n": draw(gen.integer(1, 50)),
            "a": draw(gen.num(1, 20)), "b": draw(gen.num(1, 20)), "T": draw(st.sampled_from(["mpf", "fraction"]))}


class Count:
    def __init__(self, f):
        self.f, self.n = f, 0

    def __call__(self, *a, **k):
        self.n += 1
        return self.f(*a, **k)


def setup(c):
    T = conv(c["T"])
    A = lambda v: oarr(v, T)
    S0, S1 = A(c["S0"]), A(c["S1"])
    for S in (S0, S1):  # rounding keeps symmetry; add a multiple of the identity to keep definiteness
        for i in range(len(S)):
            S[i, i] = S[i, i] + T(0.01)
    return T, A, S0, S1


@sub("C15", "matrix-known-covariance", matcase("mv"), quick=150, thorough=3000, rule="always")
def known_cov(c, rec):
    T, A, S0, S1 = setup(c)
    mu, xb, n = A(c["mu"]), A(c["rows"][0]), c["n"]
    inv = Count(gauss)
    P0, P1 = gauss(S0), gauss(S1)
    prec = P0 + n * P1
    C = gauss(prec)
    m = C @ (P0 @ mu + n * (P1 @ xb))
    for nm, kw in (("multivariate_normal_known_covariance", {"cov": S1}), ("multivariate_normal_known_precision", {"precision": P1})):
        r = sut(getattr(F(), nm), n=n, x_bar=xb, prior=D().MultivariateNormal(mu=mu, cov=S0), inv=inv, **kw)
        exact_equal(r.mu, m, c["T"], nm + ": mu", 1e3)
        exact_equal(r.cov, C, c["T"], nm + ": cov", 1e3)
    r = sut(F().multivariate_normal_known_precision_predictive, distribution=D().MultivariateNormal(mu=mu, cov=S0), precision=P1, inv=inv)
    exact_equal(r.cov, S0 + gauss(P1), c["T"], "predictive covariance", 1e3)
    r = sut(F().multivariate_normal_known_covariance_predictive, distribution=D().MultivariateNormal(mu=mu, cov=S0), cov=S1)
    exact_equal(r.cov, S0 + S1, c["T"], "predictive covariance", 1e3)
    rec.nontrivial()
    rec.label(c["T"], "p=%d" % c["p"])


@sub("C15", "matrix-regression", matcase("linear"), quick=150, thorough=3000, rule="always")
def regression(c, rec):
    T, A, S0, S1 = setup(c)
    R = A(c["rows"])
    X, y, mu = R[:, :-1].copy(), R[:, -1].copy(), A(c["mu"])
    a, b = T(c["a"]), T(c["b"])
    r = sut(F().linear_regression, X=X, y=y, prior=D().NormalInverseGamma(mu=mu, delta_inverse=S0, alpha=a, beta=b), inv=gauss)
    Dl = gauss(S0)
    D1 = X.T @ X + Dl
    V1 = gauss(D1)
    m1 = V1 @ (Dl @ mu + X.T @ y)
    exact_equal(r.delta_inverse, V1, c["T"], "linear_regression: delta_inverse", 1e3)
    exact_equal(r.mu, m1, c["T"], "linear_regression: mu", 1e3)
    beta = b + (y @ y + mu @ Dl @ mu - m1 @ D1 @ m1) / 2
    alpha = a + (Fraction(len(y), 2) if c["T"] == "fraction" else mp.mpf(len(y)) / 2)
    if c["T"] == "mpf":
        exact_equal(r.beta, beta, "mpf", "linear_regression: beta", 1e6)
        exact_equal(r.alpha, alpha, "mpf", "linear_regression: alpha")
    else:
        big = abs(float(y @ y)) + abs(float(mu @ Dl @ mu)) + float(b)
        expect(abs(float(r.beta) - float(beta)) <= 1e-12 * big and abs(float(r.alpha) - float(alpha)) <= 1e-12 * float(alpha), "alpha %r, beta %r, should be %r, %r", r.alpha, r.beta,
               float(alpha), float(beta))

    # predictive with its own identity
    def eye(n, *args, **kw):
        expect(n == len(X), "identity matrix of size %r asked for %d rows", n, len(X))
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                out[i, j] = T(0) + int(i == j) if c["T"] == "mpf" else Fraction(int(i == j))
        return out

    ey = Count(eye)
    d = D().NormalInverseGamma(mu=mu, delta_inverse=S0, alpha=a, beta=b)
    q = sut(F().linear_regression_predictive, distribution=d, X=X, eye=ey)
    I = eye(len(X))
    exact_equal(q.sigma, (b / a) * (I + X @ S0 @ X.T), c["T"], "linear_regression_predictive: sigma", 1e4)
    exact_equal(q.mu, X @ mu, c["T"], "linear_regression_predictive: mu", 1e3)
    expect(ey.n > 0, "the supplied identity function was not used")
    rec.nontrivial()
    rec.label(c["T"], "p=%d" % c["p"])


@sub("C15", "matrix-unknown-mean-covariance", matcase("mv"), quick=150, thorough=3000, rule="always")
def unknown(c, rec):
    T, A, S0, S1 = setup(c)
    X, mu, k, nu = A(c["rows"]), A(c["mu"]), T(c["b"]), T(c["a"] + c["p"])
    n = len(X)

    def outer(a, b):
        out = np.empty((len(a), len(b)), dtype=object)
        for i in range(len(a)):
            for j in range(len(b)):
                out[i, j] = a[i] * b[j]
        return out

    o = Count(outer)
    prior = D().NormalInverseWishart(mu=mu, kappa=k, nu=nu, psi=S0)
    r = sut(F().multivariate_normal, X=X, prior=prior, outer=o)
    xb = X.sum(axis=0) / n
    C = (X - xb).T @ (X - xb)
    d = xb - mu
    exact_equal(r.mu, (k * mu + n * xb) / (k + n), c["T"], "multivariate_normal: mu", 1e3)
    exact_equal(r.psi, S0 + C + (n * k / (k + n)) * outer(d, d), c["T"], "multivariate_normal: psi", 1e4)
    exact_equal(r.kappa, k + n, c["T"], "multivariate_normal: kappa")
    exact_equal(r.nu, nu + n, c["T"], "multivariate_normal: nu")
    expect(o.n > 0, "the supplied outer product was not used")
    if any(x != 0 for x in d):
        r2 = sut(F().multivariate_normal, X=X, prior=prior, outer=lambda a, b: 3 * outer(a, b))
        expect(any(x != y for x, y in zip(np.ravel(r.psi), np.ravel(r2.psi))), "the result of the supplied outer product is not used")
    rec.nontrivial()
    rec.label(c["T"], "p=%d" % c["p"])


@st.composite
def defcase(draw):
    name = draw(st.sampled_from(["multivariate_normal_known_covariance", "multivariate_normal_known_precision", "multivariate_normal", "linear_regression"]))
    return {"name": name, "c": draw(mv.case_st(name, maxrows=4, mhi=5)), "rows": draw(st.integers(1, 4)), "seed": draw(gen.SEEDS), "size": draw(st.integers(1, 4))}


@sub("C15", "matrix-default-functions", defcase(), quick=200, thorough=4000, rule="always")
def matdef(c, rec):
    nm, k = c["name"], c["c"]
    pr = mv.make_prior(nm, k["prior"], k["ints"])
    kw = mv.stats(nm, k["p"], k["data"], k["known"], k["ints"])
    f = "outer" if nm == "multivariate_normal" else "inv"
    cnt = Count(np.outer if f == "outer" else np.linalg.inv)
    a, b = mv.call(nm, pr, kw), mv.call(nm, pr, kw, **{f: cnt})
    expect(cnt.n > 0, "%s: the supplied %s was not called", nm, f)
    for x in vars(a):
        if x.startswith("_") or getattr(a, x) is None:
            continue
        expect(eq(getattr(a, x), getattr(b, x), 1e-12), "%s: %s differs when the default %s is given explicitly", nm, x, f)
    if nm == "linear_regression":
        e = Count(np.eye)
        X = np.asarray(kw["X"])
        a, b = sut(F().linear_regression_predictive, distribution=pr, X=X), sut(F().linear_regression_predictive, distribution=pr, X=X, eye=e)
        expect(e.n > 0 and eq(a.sigma, b.sigma, 1e-12), "predictive scale differs when the default identity is given explicitly")
    if nm == "multivariate_normal_known_precision":
        i = Count(np.linalg.inv)
        P1 = np.array(k["known"]["precision"], float)
        a = sut(F().multivariate_normal_known_precision_predictive, distribution=pr, precision=P1)
        b = sut(F().multivariate_normal_known_precision_predictive, distribution=pr, precision=P1, inv=i)
        expect(i.n > 0 and eq(a.cov, b.cov, 1e-12), "predictive covariance differs when the default inverse is given explicitly")
    if k["p"] > 1:
        w = D().NormalWishart(mu=np.zeros(k["p"]), lam=1.0, W=np.array(k["prior"].get("cov", k["prior"].get("psi", k["prior"].get("delta_inverse"))), float), nu=k["p"] + 3)
        i = Count(np.linalg.inv)
        n, s = c["size"], c["seed"]
        a = sut(w.sample_variance, size=n, random_state=s)
        b = sut(w.sample_variance, size=n, random_state=s, inv=i)
        expect(i.n > 0 and eq(a, b, 1e-12), "sample_variance differs when the default inverse is given explicitly")
        g = sut(w.sample_variance, size=n, random_state=s, inv=lambda z: 2.5 * np.linalg.inv(z))
        expect(eq(g, 2.5 * np.asarray(a), 1e-12), "sample_variance does not use the supplied inverse")
    rec.nontrivial()
    rec.label(nm)
