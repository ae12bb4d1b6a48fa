"""C11: distribution arithmetic is the law of the independent sum."""
import math

import mpmath as mp
import numpy as np
from hypothesis import strategies as st

from pbt import dists, gen, ref
from pbt.core import expect, fail, sub, sut
from pbt.ref import M, close

P = gen.pos(1e-2, 1e3)
CLS = {
    "Exponential": dict(lam=P), "Gamma": dict(alpha=P, beta=P), "NegativeBinomial": dict(n=gen.pos(0.05, 500), p=gen.prob(1e-2)),
    "Poisson": dict(lam=P), "Normal": dict(mu=gen.real(50), sigma=P),
}
KS = st.one_of(gen.integer(1, 12), gen.pos(1e-2, 1e3), st.sampled_from([1, 2, 0.5, 7, 100]))


def make(cls, p, kind="raw"):
    import conjugate.distributions as D

    return getattr(D, cls)(**{k: gen.present(v, kind, k) for k, v in p.items()})


def cumulants(cls, p):
    """first four cumulants of the documented law"""
    p = {k: M(v) for k, v in p.items()}
    if cls == "Exponential":
        return [mp.factorial(i) / p["lam"] ** (i + 1) for i in range(4)]
    if cls == "Gamma":
        return [p["alpha"] * mp.factorial(i) / p["beta"] ** (i + 1) for i in range(4)]
    if cls == "Poisson":
        return [p["lam"]] * 4
    if cls == "Normal":
        return [p["mu"], p["sigma"] ** 2, mp.mpf(0), mp.mpf(0)]
    n, q = p["n"], 1 - p["p"]
    p = p["p"]
    return [n * q / p, n * q / p**2, n * q * (1 + q) / p**3, n * q * (1 + 4 * q + q * q) / p**4]


def same_law(cls, got, k, base, what):
    """cumulants of `got` (any type among CLS) are k times those of the base distribution"""
    t = type(got).__name__
    expect(t in CLS, "%s returned %s", what, t)
    want = [M(k) * c for c in cumulants(cls, base)]
    have = cumulants(t, {f: getattr(got, f) for f in CLS[t]})
    for i, (h, w) in enumerate(zip(have, want)):
        expect(abs(h - w) <= mp.mpf(10) ** -11 * abs(w), "%s: cumulant %d is %s, should be %s (%r)", what, i + 1, mp.nstr(h, 14), mp.nstr(w, 14), got)
    # and as the attached object sees it
    m, v, s, e = [M(float(x)) for x in sut(lambda: got.dist.stats(moments="mvsk"))]
    expect(abs(m - want[0]) <= mp.mpf(10) ** -9 * (abs(want[0])) + mp.mpf(10) ** -290, "%s: mean %s, should be %s", what, m, want[0])
    expect(abs(v - want[1]) <= mp.mpf(10) ** -8 * abs(want[1]), "%s: variance %s, should be %s", what, mp.nstr(v, 12), mp.nstr(want[1], 12))
    expect(abs(s - want[2] / want[1] ** mp.mpf("1.5")) <= mp.mpf(10) ** -6 * (1 + abs(s)), "%s: skewness %s", what, s)
    expect(abs(e - want[3] / want[1] ** 2) <= mp.mpf(10) ** -6 * (1 + abs(e)), "%s: excess kurtosis %s", what, e)


# ------------------------------------------------------------------ k copies
def case(cls):
    return st.fixed_dictionaries(dict(p=st.fixed_dictionaries(CLS[cls]), k=KS, j=KS, kind=st.sampled_from(["raw", "npfloat", "npint", "arr0"]),
                                      kk=st.sampled_from(["raw", "npfloat", "npint", "arr0"])))


def mk(cls):
    def check(c, rec):
        d = make(cls, c["p"], c["kind"])
        before = {f: getattr(d, f) for f in CLS[cls]}
        k, j = gen.present(c["k"], c["kk"]), gen.present(c["j"], c["kk"])
        a, b = sut(lambda: d * k), sut(lambda: k * d)
        same_law(cls, a, c["k"], c["p"], "%s%r * %r" % (cls, c["p"], c["k"]))
        same_law(cls, b, c["k"], c["p"], "%r * %s%r" % (c["k"], cls, c["p"]))
        expect(type(a) is type(b), "the two sides give %s and %s", type(a).__name__, type(b).__name__)
        two = sut(lambda: (d * k) * j)
        same_law(cls, two, float(c["k"]) * float(c["j"]) if not (isinstance(c["k"], int) and isinstance(c["j"], int)) else c["k"] * c["j"], c["p"],
                 "(%s%r * %r) * %r" % (cls, c["p"], c["k"], c["j"]))
        swapped = sut(lambda: j * (k * d))
        same_law(cls, swapped, float(c["k"]) * float(c["j"]), c["p"], "%r * (%r * %s%r)" % (c["j"], c["k"], cls, c["p"]))
        for f, v in before.items():
            expect(getattr(d, f) is v and (np.ndim(v) == 0 and float(v) == float(c["p"][f])), "the operand changed: %s=%r", f, getattr(d, f))
        expect(a is not d and b is not d and two is not d, "%s%r * %r is the operand itself, not a new distribution", cls, c["p"], c["k"])
        rec.nontrivial(c["k"] != 1 and any(v != 1 for v in c["p"].values()))
        rec.label(c["kk"], "integer k" if isinstance(c["k"], int) else "fractional k")

    return check


for cl in CLS:
    sub("C11", "copies-" + cl, case(cl), quick=400, thorough=10000, rule="k not one, parameters not all one")(mk(cl))


# ------------------------------------------------------------------ the sum of k copies by convolution
def dom(cls):
    return {k: st.floats(v[0], v[1]) for k, v in dists.BY_KEY[cls].vec.items()}


@st.composite
def conv_case(draw):
    cls = draw(st.sampled_from(sorted(CLS)))
    return {"cls": cls, "p": {k: draw(s) for k, s in dom(cls).items()}, "k": draw(st.integers(2, 4)), "left": draw(st.booleans()), "u": draw(st.floats(0.05, 0.95))}


@sub("C11", "convolution", conv_case(), quick=150, rule="always")
def conv(c, rec):
    d = make(c["cls"], c["p"])
    k = c["k"]
    s = sut(lambda: k * d if c["left"] else d * k)
    if c["cls"] in ("Poisson", "NegativeBinomial"):
        x = np.arange(0, 400)
        f = np.asarray(sut(d.dist.pmf, x))
        g = f
        for _ in range(k - 1):
            g = np.convolve(g, f)[:400]
        h = np.asarray(sut(s.dist.pmf, x))
        expect(np.abs(g - h).max() < 1e-9, "%s%r: mass of %d copies differs from the convolution by %r", c["cls"], c["p"], k, np.abs(g - h).max())
    else:
        # P(X1 + X2 <= t) = E F(t - X1), using (k-1) copies already multiplied for X1
        rest = sut(lambda: d * (k - 1))
        t = float(sut(s.dist.ppf, c["u"]))
        q = (np.arange(4000) + 0.5) / 4000
        x = np.asarray(sut(rest.dist.ppf, q))
        got = float(np.mean(np.asarray(sut(d.dist.cdf, t - x))))
        expect(abs(got - c["u"]) < 2e-3, "%s%r: P(sum of %d copies <= %r) is %r by convolution, %r by the product", c["cls"], c["p"], k, t, got, c["u"])
    rec.nontrivial()
    rec.label(c["cls"])


# ------------------------------------------------------------------ arrays
@st.composite
def arr_case(draw):
    cls = draw(st.sampled_from(sorted(CLS)))
    n = draw(st.integers(1, 4))
    par = {}
    for f, s in CLS[cls].items():
        par[f] = draw(gen.vec(s, n)) if draw(st.booleans()) else draw(s)
    how = draw(st.sampled_from(["vector", "column", "scalar"]))
    m = draw(st.integers(1, 3))
    k = draw(KS) if how == "scalar" else draw(gen.vec(KS, n if how == "vector" else m))
    return {"cls": cls, "par": par, "k": k, "how": how, "ints": draw(st.booleans()), "left": draw(st.booleans())}


@sub("C11", "arrays", arr_case(), quick=400, rule="an array factor or array parameters")
def arrays(c, rec):
    import conjugate.distributions as D

    cls = c["cls"]
    par = {f: (np.array(v, float) if isinstance(v, list) else v) for f, v in c["par"].items()}
    d = getattr(D, cls)(**par)
    k = c["k"]
    if isinstance(k, list):
        k = np.array(k, dtype=float)
        if c["ints"] and (k == np.round(k)).all():
            k = k.astype(int)
        if c["how"] == "column":
            k = k[:, None]
    k0 = np.array(k, copy=True)
    r = sut(lambda: k * d if c["left"] else d * k)
    t = type(r).__name__
    expect(t in CLS, "%s times an array returned %s", cls, t)
    full = np.broadcast_shapes(np.shape(k), *[np.shape(v) for v in par.values()])
    fs = {f: np.broadcast_to(np.asarray(getattr(r, f), dtype=float), full) for f in CLS[t]}
    mean = np.broadcast_to(np.asarray(sut(lambda: r.dist.mean())), full)
    for idx in np.ndindex(*full):
        base = {f: float(np.broadcast_to(np.asarray(v, float), full)[idx]) for f, v in par.items()}
        kk = float(np.broadcast_to(np.asarray(k, float), full)[idx])
        want = [M(kk) * x for x in cumulants(cls, base)]
        have = cumulants(t, {f: float(v[idx]) for f, v in fs.items()})
        for i in range(4):
            expect(abs(have[i] - want[i]) <= mp.mpf(10) ** -11 * abs(want[i]), "element %r: cumulant %d of %s%r * %r is %s, should be %s", idx, i + 1, cls, base, kk,
                   mp.nstr(have[i], 12), mp.nstr(want[i], 12))
        expect(abs(M(float(mean[idx])) - want[0]) <= mp.mpf(10) ** -9 * abs(want[0]), "mean of element %r", idx)
    expect(np.array_equal(k, k0), "the factor was changed")
    for f, v in c["par"].items():
        expect(np.array_equal(np.asarray(getattr(d, f), float), np.asarray(v, float)), "the operand was changed")
    rec.nontrivial(len(full) > 0)
    rec.label(cls, c["how"], "left" if c["left"] else "right")


# ------------------------------------------------------------------ Poisson expressions
@st.composite
def expr(draw, depth=3):
    kind = draw(st.sampled_from(["leaf", "add", "add", "mulr", "mull"])) if depth else "leaf"
    if kind == "leaf":
        return ["v", draw(st.integers(0, 3))]
    if kind == "add":
        return ["+", draw(expr(depth - 1)), draw(expr(depth - 1))]
    return [kind, draw(expr(depth - 1)), draw(KS)]


@sub("C11", "poisson-expressions", st.fixed_dictionaries(dict(lam=gen.vec(P, 4), e=expr())), quick=600, thorough=15000, rule="at least one operation")
def pexpr(c, rec):
    import conjugate.distributions as D

    leaves = [D.Poisson(v) for v in c["lam"]]
    ops = [0]

    def ev(e):
        if e[0] == "v":
            return leaves[e[1]], M(c["lam"][e[1]])
        ops[0] += 1
        if e[0] == "+":
            (a, x), (b, y) = ev(e[1]), ev(e[2])
            s, r = sut(lambda: a + b), sut(lambda: b + a)
            expect(close(s.lam, M(r.lam), None, 1e-13), "a + b has rate %r, b + a %r", s.lam, r.lam)
            return s, x + y
        a, x = ev(e[1])
        return sut((lambda: a * e[2]) if e[0] == "mulr" else (lambda: e[2] * a)), x * M(e[2])

    got, want = ev(c["e"])
    expect(type(got).__name__ == "Poisson", "expression is a %s", type(got).__name__)
    expect(close(got.lam, want, None, 1e-12), "expression %s has rate %r, should be %s", c["e"], got.lam, mp.nstr(want, 15))
    for o, v in zip(leaves, c["lam"]):
        expect(o.lam == v, "an operand changed to %r", o.lam)
    rec.nontrivial(ops[0] >= 1)
    rec.label("ops=%d" % min(ops[0], 6))


# ------------------------------------------------------------------ sums of Poisson arrays
@st.composite
def psum_case(draw):
    rows, cols = draw(st.integers(1, 3)), draw(st.integers(1, 4))
    shape = st.sampled_from([(), (1,), (cols,), (rows, 1), (rows, cols), (1, cols), (2, rows, cols)])

    def lam():
        s = draw(shape)
        return {"shape": list(s), "v": draw(gen.vec(gen.pos(1e-3, 1e4), int(np.prod(s, dtype=int))))}

    return {"a": lam(), "b": lam(), "same": draw(st.sampled_from(["object", "value", "no", "no"])), "ints": draw(st.booleans()), "k": draw(KS)}


@sub("C11", "poisson-array-sums", psum_case(), quick=300, rule="an array rate")
def psums(c, rec):
    import conjugate.distributions as D

    def mk(x):
        v = np.array(x["v"], float).reshape(x["shape"])
        if c["ints"]:
            v = np.ceil(v).astype(int)
        return v if x["shape"] else v.item()

    la = mk(c["a"])
    a = D.Poisson(la)
    if c["same"] == "object":
        lb, b = la, a
    elif c["same"] == "value":
        lb = np.array(la, copy=True) if np.ndim(la) else la
        b = D.Poisson(lb)
    else:
        lb = mk(c["b"])
        b = D.Poisson(lb)
    la0, lb0 = np.array(la, copy=True), np.array(lb, copy=True)
    k = c["k"]
    full = np.broadcast_shapes(np.shape(la), np.shape(lb))
    for what, f, want in (
        ("a + b", lambda: a + b, la0 + lb0), ("b + a", lambda: b + a, la0 + lb0), ("a + b + a", lambda: a + b + a, 2.0 * la0 + lb0),
        ("k * (a + b)", lambda: k * (a + b), k * (la0 + 1.0 * lb0)), ("a * k + b", lambda: a * k + b, k * (1.0 * la0) + lb0),
    ):
        r = sut(f)
        expect(type(r).__name__ == "Poisson", "%s is a %s", what, type(r).__name__)
        expect(np.shape(r.lam) == full, "%s has rates of shape %r, operands %r and %r", what, np.shape(r.lam), np.shape(la0), np.shape(lb0))
        err = np.abs(np.asarray(r.lam, float) - want) / np.abs(want)
        expect(np.all(err < 1e-12), "%s has rates %r, should be %r", what, r.lam, want)
        mean = np.broadcast_to(np.asarray(sut(lambda: r.dist.mean()), float), full)
        expect(np.all(np.abs(mean - want) <= 1e-9 * want), "mean of %s is %r, should be %r", what, mean, want)
    expect(np.array_equal(la, la0) and np.array_equal(lb, lb0) and a.lam is la and b.lam is lb, "an operand was changed")
    rec.nontrivial(len(full) > 0)
    rec.label("ndim=%d" % len(full), "same " + c["same"])


@sub("C11", "poisson-laws", st.fixed_dictionaries(dict(a=P, b=P, c=P, k=KS)), quick=200, rule="always")
def plaws(c, rec):
    import conjugate.distributions as D

    a, b, d = (D.Poisson(c[x]) for x in "abc")
    k = c["k"]
    for l, r in (
        (lambda: k * (a + b), lambda: k * a + k * b), (lambda: (a + b) + d, lambda: a + (b + d)), (lambda: (a + b) * k, lambda: a * k + b * k),
        (lambda: a + a, lambda: 2 * a), (lambda: a + a + a, lambda: a * 3),
    ):
        x, y = sut(l), sut(r)
        expect(close(x.lam, M(y.lam), None, 1e-12), "%r and %r should be equal", x, y)
    # the law of the sum, by convolution
    if c["a"] < 50 and c["b"] < 50:
        n = np.arange(0, 300)
        f = np.convolve(sut(a.dist.pmf, n), sut(b.dist.pmf, n))[:300]
        g = sut((a + b).dist.pmf, n)
        expect(np.abs(f - g).max() < 1e-10, "mass of the sum differs from the convolution")
    # arrays
    arr = D.Poisson(np.array([c["a"], c["b"]]))
    s = sut(lambda: arr + d)
    expect(np.allclose(s.lam, [c["a"] + c["c"], c["b"] + c["c"]], rtol=1e-12), "array sum %r", s)
    s = sut(lambda: d + arr)
    expect(np.allclose(s.lam, [c["a"] + c["c"], c["b"] + c["c"]], rtol=1e-12), "array sum %r", s)
    rec.nontrivial()
