"""C12: alternative constructors and conversions preserve the distribution."""
import math

import mpmath as mp
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import expect, fail, sub, sut
from pbt.mvmodels import E
from pbt.ref import M, close

P = st.one_of(gen.pos(1e-3, 1e5), gen.pos(1e-3, 1e5), gen.pos(1e-8, 1e10))
# any mean strictly between zero and one, down to within 1e-12 of either end
MEAN = st.one_of(gen.prob(1e-5), gen.prob(1e-5), gen.prob(1e-12), st.integers(5, 12).map(lambda k: 1 - 10.0**-k), st.floats(5, 12).map(lambda k: 1 - 10.0**-k))


def val(s):
    """scalar, vector or column"""
    k = lambda n, t: st.lists(s, min_size=n, max_size=n).map(lambda v: [t] + v)
    return st.one_of(s, s, s, k(3, "v"), k(1, "v"), k(2, "c"), k(1, "c"))


def obj(v, ints=True):
    if isinstance(v, list):
        a = np.array(v[1:])
        return a[:, None] if v[0] == "c" else a
    return v


def elements(args, res):
    """yield (scalar arguments, scalar fields) for every broadcast element"""
    full = np.broadcast_shapes(*[np.shape(a) for a in args])
    for r in res:
        expect(np.shape(r) in (full,) or np.ndim(r) == 0 or np.broadcast_shapes(np.shape(r), full) == full, "result shape %r for arguments %r", np.shape(r), full)
    for i in np.ndindex(*full):
        pick = lambda a: np.broadcast_to(np.asarray(a), full)[i].item()
        yield [M(pick(a)) for a in args], [pick(r) for r in res]


def eq(got, want, what, rel=1e-12, mag=None):
    expect(close(got, want, mag, rel), "%s = %r, should be %s", what, got, mp.nstr(want, 15))


def dec(c, rec):
    rec.label("array" if any(isinstance(v, list) for v in c.values()) else "scalar")


@sub("C12", "beta-from-mean", st.fixed_dictionaries(dict(mean=val(MEAN), alpha=val(P))), quick=400, rule="mean not one half")
def beta_from_mean(c, rec):
    import conjugate.distributions as D

    m, a = obj(c["mean"]), obj(c["alpha"])
    b = sut(D.Beta.from_mean, mean=m, alpha=a)
    b2 = sut(D.Beta.from_mean, m, a)
    h = sut(D.get_beta_param_from_mean_and_alpha, mean=m, alpha=a)
    expect(type(b) is D.Beta, "returned %s", type(b).__name__)
    mean = sut(lambda: b.dist.mean())
    for (mm, aa), (ga, gb, gb2, gh, gm) in elements([m, a], [b.alpha, b.beta, b2.beta, h, mean]):
        eq(ga, aa, "alpha")
        want = aa * (1 - mm) / mm
        for g in (gb, gb2, gh):
            eq(g, want, "beta of from_mean(%s, %s)" % (mp.nstr(mm, 8), mp.nstr(aa, 8)), 1e-13, aa / mm)
        eq(gm, mm, "mean", 1e-9)
    rec.nontrivial(c["mean"] != 0.5)
    dec(c, rec)


@sub("C12", "beta-counts-and-defaults", st.fixed_dictionaries(dict(s=val(gen.integer(0, 10**6)), f=val(gen.integer(0, 10**6)), n=gen.integer(1, 200), sigma=val(P))), quick=200,
     rule="non-zero counts")
def beta_counts(c, rec):
    import conjugate.distributions as D

    s, f = obj(c["s"]), obj(c["f"])
    b = sut(D.Beta.from_successes_and_failures, successes=s, failures=f)
    expect(type(b) is D.Beta, "returned %s", type(b).__name__)
    for (x, y), (ga, gb) in elements([s, f], [b.alpha, b.beta]):
        eq(ga, x + 1, "alpha")
        eq(gb, y + 1, "beta")
    # no observations: the uninformative prior, which is uniform
    u, z = sut(D.Beta.uninformative), sut(D.Beta.from_successes_and_failures, 0, 0)
    for t in (0.1, 0.5, 0.93):
        expect(abs(float(sut(u.dist.pdf, t)) - 1) < 1e-12 and abs(float(sut(z.dist.pdf, t)) - 1) < 1e-12, "uninformative beta %r / no data %r not uniform", u, z)
    d = sut(D.Dirichlet.uninformative, c["n"])
    expect(type(d) is D.Dirichlet and np.array_equal(np.asarray(d.alpha), np.ones(c["n"])), "uninformative Dirichlet(%d) is %r", c["n"], d)
    n0 = sut(D.Normal.uninformative)
    expect(n0.mu == 0 and n0.sigma == 1, "uninformative normal %r", n0)
    sg = obj(c["sigma"])
    n1 = sut(D.Normal.uninformative, sigma=sg)
    expect(np.all(np.asarray(n1.mu) == 0) and np.array_equal(np.asarray(n1.sigma), np.asarray(sg)), "uninformative normal %r", n1)
    rec.nontrivial(c["s"] != 0 and c["f"] != 0)
    dec(c, rec)


@sub("C12", "normal-from-variance-or-precision", st.fixed_dictionaries(dict(mean=val(gen.real(1000)), v=val(gen.pos(1e-14, 1e14)))), quick=300, rule="variance not one")
def normal(c, rec):
    import conjugate.distributions as D

    m, v = obj(c["mean"]), obj(c["v"])
    if isinstance(v, np.ndarray):
        v = v.astype(float)  # numpy has no negative powers of integer arrays
    a = sut(D.Normal.from_mean_and_variance, mean=m, variance=v)
    fv = np.asarray(v, float) if isinstance(v, np.ndarray) else v
    b = sut(D.Normal.from_mean_and_precision, mean=m, precision=fv)
    expect(type(a) is D.Normal and type(b) is D.Normal, "returned %s, %s", type(a).__name__, type(b).__name__)
    va, vb = sut(lambda: a.dist.var()), sut(lambda: b.dist.var())
    for (mm, vv), (g1, g2, s1, s2, w1, w2) in elements([m, v], [a.mu, b.mu, a.sigma, b.sigma, va, vb]):
        eq(g1, mm, "mean")
        eq(g2, mm, "mean")
        eq(s1, mp.sqrt(vv), "standard deviation for variance %s" % vv)
        eq(s2, 1 / mp.sqrt(vv), "standard deviation for precision %s" % vv)
        eq(w1, vv, "variance", 1e-9)
        eq(w2, 1 / vv, "variance", 1e-9)
    # the two constructors agree
    e = sut(D.Normal.from_mean_and_variance, mean=m, variance=1 / fv)
    expect(np.allclose(e.sigma, b.sigma, rtol=1e-12), "variance 1/p gives %r, precision p gives %r", e, b)
    rec.nontrivial(c["v"] != 1)
    dec(c, rec)


@sub("C12", "gamma-from-occurrences", st.fixed_dictionaries(dict(o=val(P), i=val(P))), quick=200, rule="values differ")
def gammas(c, rec):
    import conjugate.distributions as D

    o, i = obj(c["o"]), obj(c["i"])
    g = sut(D.Gamma.from_occurrences_in_intervals, occurrences=o, intervals=i)
    expect(type(g) is D.Gamma, "returned %s", type(g).__name__)
    m = sut(lambda: g.dist.mean())
    for (x, y), (a, b, mm) in elements([o, i], [g.alpha, g.beta, m]):
        eq(a, x, "alpha")
        eq(b, y, "beta")
        eq(mm, x / y, "mean rate", 1e-9)
    rec.nontrivial(c["o"] != c["i"])
    dec(c, rec)


@sub("C12", "inverse-gamma-conversions", st.fixed_dictionaries(dict(a=val(P), b=val(P), x=gen.pos(1e-3, 1e3))), quick=400, rule="parameters not one")
def invgamma(c, rec):
    import conjugate.distributions as D

    a, b = obj(c["a"]), obj(c["b"])
    ig = D.InverseGamma(a, b)
    s = sut(D.ScaledInverseChiSquared.from_inverse_gamma, ig)
    expect(type(s) is D.ScaledInverseChiSquared, "returned %s", type(s).__name__)
    back = sut(s.to_inverse_gamma)
    expect(type(back) is D.InverseGamma, "returned %s", type(back).__name__)
    for (x, y), (nu, s2, ba, bb) in elements([a, b], [s.nu, s.sigma2, back.alpha, back.beta]):
        eq(nu, 2 * x, "nu")
        eq(s2, y / x, "sigma2")
        eq(ba, x, "alpha after the round trip", 1e-13)
        eq(bb, y, "beta after the round trip", 1e-13)
    # the other way round
    t = D.ScaledInverseChiSquared(a, b)
    ig2 = sut(t.to_inverse_gamma)
    t2 = sut(D.ScaledInverseChiSquared.from_inverse_gamma, ig2)
    for (x, y), (al, be, nu, s2) in elements([a, b], [ig2.alpha, ig2.beta, t2.nu, t2.sigma2]):
        eq(al, x / 2, "alpha")
        eq(be, x * y / 2, "beta")
        eq(nu, x, "nu after the round trip", 1e-13)
        eq(s2, y, "sigma2 after the round trip", 1e-13)
    # same density
    X = c["x"]
    for u, v in ((ig, s), (t, ig2)):
        f, g = np.asarray(sut(u.dist.logpdf, X)), np.asarray(sut(v.dist.logpdf, X))
        ok = np.isclose(f, g, rtol=1e-7, atol=1e-7) | (f == g) | (np.minimum(f, g) < -600)
        expect(ok.all(), "log density at %r is %r before and %r after conversion", X, f, g)
    # the originals are untouched
    expect(ig.alpha is a and ig.beta is b and t.nu is a, "a conversion changed its source")
    rec.nontrivial(c["a"] != 1 and c["b"] != 1)
    dec(c, rec)


@st.composite
def joint(draw):
    p = draw(st.integers(1, 3))
    return {"p": p, "mu": draw(gen.vec(E, p)), "a": draw(P), "b": draw(P), "nu": draw(P), "kappa": draw(P), "D": draw(gen.spd(p)), "which": draw(st.sampled_from(["nu", "delta"])),
            "direct": draw(st.booleans()), "arr": draw(st.booleans())}


@sub("C12", "joint-from-components", joint(), quick=300, rule="always")
def comps(c, rec):
    import conjugate.distributions as D

    ab = (np.array([c["a"], c["b"]]), np.array([c["b"], 1.0])) if c["arr"] and c["which"] == "nu" else (c["a"], c["b"])
    ig = D.InverseGamma(*ab)
    Dl = np.array(c["D"], float)
    kw = {"nu": c["nu"]} if c["which"] == "nu" else {"delta_inverse": Dl}
    mu = c["mu"][0] if c["which"] == "nu" else np.array(c["mu"], float)
    j = sut(D.NormalInverseGamma.from_inverse_gamma, mu=mu, inverse_gamma=ig, **kw)
    expect(type(j) is D.NormalInverseGamma, "returned %s", type(j).__name__)
    back = sut(lambda: j.inverse_gamma)
    expect(type(back) is D.InverseGamma and np.array_equal(back.alpha, ig.alpha) and np.array_equal(back.beta, ig.beta), "component read back as %r, was %r", back, ig)
    expect(np.array_equal(np.asarray(j.mu), np.asarray(mu)), "mean %r became %r", mu, j.mu)
    if c["which"] == "nu":
        expect(j.nu == c["nu"] and j.delta_inverse is None, "nu=%r, delta_inverse=%r", j.nu, j.delta_inverse)
    else:
        expect(j.nu is None and np.array_equal(j.delta_inverse, Dl), "nu=%r, delta_inverse=%r", j.nu, j.delta_inverse)
    direct = sut(D.NormalInverseGamma, mu=mu, alpha=ig.alpha, beta=ig.beta, **kw)
    expect(np.array_equal(direct.inverse_gamma.alpha, ig.alpha) and np.array_equal(direct.inverse_gamma.beta, ig.beta), "component of the direct construction %r", direct.inverse_gamma)
    # inverse Wishart
    iw = D.InverseWishart(nu=c["nu"] + c["p"], psi=Dl)
    w = sut(D.NormalInverseWishart.from_inverse_wishart, mu=np.array(c["mu"], float), kappa=c["kappa"], inverse_wishart=iw)
    expect(type(w) is D.NormalInverseWishart, "returned %s", type(w).__name__)
    bw = sut(lambda: w.inverse_wishart)
    expect(type(bw) is D.InverseWishart and bw.nu == iw.nu and np.array_equal(bw.psi, Dl), "component read back as %r", bw)
    expect(w.kappa == c["kappa"] and np.array_equal(w.mu, np.array(c["mu"], float)), "kappa=%r mu=%r", w.kappa, w.mu)
    # normal-gamma and normal-Wishart components
    g = sut(lambda: D.NormalGamma(mu=mu, lam=c["nu"], alpha=c["a"], beta=c["b"]).gamma)
    expect(type(g) is D.Gamma and g.alpha == c["a"] and g.beta == c["b"], "precision component %r", g)
    wi = sut(lambda: D.NormalWishart(mu=np.array(c["mu"], float), lam=c["kappa"], W=Dl, nu=c["nu"] + c["p"]).wishart)
    expect(type(wi) is D.Wishart and wi.nu == c["nu"] + c["p"] and np.array_equal(wi.V, Dl), "precision component %r", wi)
    rec.nontrivial()
    rec.label(c["which"], "p=%d" % c["p"])


@sub("C12", "joint-needs-exactly-one-precision", st.fixed_dictionaries(dict(c=joint(), nu=st.sampled_from([0, 0.0, 1, 2.5]), form=st.sampled_from(["both", "none"]),
     delta=st.sampled_from(["matrix", "scalar", "zero"]), via=st.booleans())), quick=120, rule="always")
def exactly_one(c, rec):
    import conjugate.distributions as D

    j = c["c"]
    delta = {"matrix": np.array(j["D"], float), "scalar": 2.0, "zero": np.zeros((j["p"], j["p"]))}[c["delta"]]
    kw = {"delta_inverse": delta, "nu": c["nu"]} if c["form"] == "both" else {}
    fn = D.NormalInverseGamma.from_inverse_gamma if c["via"] else D.NormalInverseGamma
    args = dict(mu=1.0, inverse_gamma=D.InverseGamma(2.0, 3.0)) if c["via"] else dict(mu=1.0, alpha=2.0, beta=3.0)
    try:
        r = fn(**args, **kw)
    except ValueError:
        r = None
    expect(r is None, "%s precision inputs were accepted: %r", c["form"], r)
    # exactly one is accepted, whatever its value
    r = sut(fn, **args, nu=c["nu"])
    expect(r.nu == c["nu"] and r.delta_inverse is None, "%r", r)
    r = sut(fn, **args, delta_inverse=delta)
    expect(r.nu is None, "%r", r)
    rec.nontrivial()
    rec.label(c["form"])
