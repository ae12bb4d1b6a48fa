"""C10: the hand-written compound distributions are proper and robust."""
import math
import random

import mpmath as mp
import numpy as np
import scipy.special as sc
from hypothesis import strategies as st

from pbt import cdfs, gen, ref
from pbt.checks.c05 import size
from pbt.core import expect, sub, sut
from pbt.ref import M

POS = st.one_of(gen.pos(1e-2, 1e3), gen.pos(1e-4, 1e8), st.sampled_from([1, 1.0, 2, 1000, 10**5, 10**7]))
XI = st.one_of(gen.integer(-2, 50), gen.integer(0, 10**7))
XF = st.one_of(gen.pos(1e-3, 1e3), gen.pos(1e-8, 1e10), st.sampled_from([-1.0, -1e-9]))


def near(got, want_log, mag, what):
    got = float(got)
    expect(math.isfinite(got) and got >= 0, "%s = %r is not a finite non-negative number", what, got)
    if want_log == -mp.inf:
        expect(got == 0, "%s = %r outside the support", what, got)
        return
    tol = 3e-14 * mag
    if want_log < -650:
        expect(got < 1e-250, "%s = %r, should be exp(%s)", what, got, mp.nstr(want_log, 8))
    elif tol < 0.3:
        expect(got > 0 and abs(mp.log(M(got)) - want_log) <= tol + 1e-11, "%s = %r, should be %s", what, got, mp.nstr(mp.exp(want_log), 14))


def flagged(c):
    """the start of the support, as a Python, numpy or plain number"""
    from pbt.models import flag

    return flag(c["one"], c.get("as", "mix:0"))


FLAGS = st.integers(0, 2).map("mix:{}".format)


# ------------------------------------------------------------------ values
@sub("C10", "beta-geometric-value", st.fixed_dictionaries(dict(a=POS, b=POS, one=st.booleans(), **{"as": FLAGS}, x=st.lists(XI, min_size=1, max_size=5), u=st.floats(0, 1), asint=st.booleans(), off=st.integers(1, 14))),
     quick=600, rule="a point inside the support")
def bgval(c, rec):
    import conjugate.distributions as D

    a, b = c["a"], c["b"]
    o = sut(D.BetaGeometric, alpha=a, beta=b, one_start=flagged(c))
    start = 1 if c["one"] else 0
    # where the mass is: median of failures about b/a
    bulk = int(min(1e9, (b / a) * (0.1 + 2 * c["u"])))
    xs = list(c["x"]) + [bulk + start, start, start - 1]
    arr = np.asarray(sut(o.dist.pmf, np.array(xs, dtype=int if c["asint"] else float)))
    expect(arr.shape == (len(xs),), "shape %r", arr.shape)
    for x, g in zip(xs, arr):
        w = ref.betageom(M(x), M(a), M(b), c["one"]) if x >= start else -mp.inf
        near(g, w, size(a, b, x), "BetaGeometric(%r, %r, one_start=%r) pmf(%r)" % (a, b, c["one"], x))
        g1 = float(sut(o.dist.pmf, x))
        expect(abs(g1 - float(g)) <= 1e-12 * float(g), "pmf(%r): alone %r, in an array %r", x, g1, g)
    half = float(sut(o.dist.pmf, bulk + 0.5))
    expect(half == 0, "mass %r at the non-integer %r", half, bulk + 0.5)
    for x in (bulk + start + 10.0 ** -c.get("off", 7), bulk + start + 1 - 10.0 ** -c.get("off", 7), np.nextafter(bulk + start + 1.0, 0)):
        if x != math.floor(x):
            v = float(sut(o.dist.pmf, x))
            expect(v == 0, "mass %r at the non-integer %r", v, x)
    rec.nontrivial()
    rec.label("concentrated" if a + b > 1e4 else "diffuse" if a + b < 0.1 else "moderate")


@sub("C10", "compound-gamma-value", st.fixed_dictionaries(dict(a=POS, b=POS, q=POS, x=st.lists(XF, min_size=1, max_size=5), u=st.floats(-3, 3))), quick=600,
     rule="a point inside the support")
def cgval(c, rec):
    import conjugate.distributions as D

    a, b, q = c["a"], c["b"], c["q"]
    o = sut(D.CompoundGamma, alpha=a, beta=b, lam=q)
    # bulk: log(x/q) about log(a/b), width sqrt(1/a+1/b)
    bulk = float(M(q) * mp.exp(mp.log(M(a) / M(b)) + M(c["u"]) * min(30, mp.sqrt(1 / M(a) + 1 / M(b)))))
    xs = list(c["x"]) + ([bulk] if 1e-290 < bulk < 1e290 else [])
    arr = np.asarray(sut(o.dist.pdf, np.array(xs)))
    for x, g in zip(xs, arr):
        w = ref.compound_gamma(M(x), M(a), M(b), M(q)) if x > 0 else -mp.inf
        # the density is sensitive to the rounding of x / q with weight (a + b)
        near(g, w, size(a, b) + (a + b) * 5 + abs(math.log(abs(x))) * (1 + a + b) + abs(math.log(q)), "CompoundGamma(%r, %r, %r) pdf(%r)" % (a, b, q, x))
        g1 = float(sut(o.dist.pdf, x))
        expect(abs(g1 - float(g)) <= 1e-12 * float(g), "pdf(%r): alone %r, in an array %r", x, g1, g)
    if a >= 1:
        z = float(sut(o.dist.pdf, 0))
        w = float(M(b) / M(q)) if a == 1 else 0.0
        expect(abs(z - w) <= (1e-9 + 3e-14 * size(a, b)) * w, "pdf(0) = %r, should be %r", z, w)
    rec.nontrivial()
    rec.label("concentrated" if a + b > 1e4 else "diffuse" if a + b < 0.1 else "moderate")


# ------------------------------------------------------------------ totals
@sub("C10", "beta-geometric-total", st.fixed_dictionaries(dict(a=st.one_of(gen.pos(0.05, 100), gen.pos(1e-2, 1e6)), b=st.one_of(gen.pos(0.05, 100), gen.pos(1e-2, 1e6)), one=st.booleans(), **{"as": FLAGS},
     K=gen.integer(1, 20000))), quick=200, rule="always")
def bgtot(c, rec):
    import conjugate.distributions as D

    a, b, K = c["a"], c["b"], c["K"]
    o = D.BetaGeometric(a, b, one_start=flagged(c))
    start = 1 if c["one"] else 0
    got = float(np.sum(sut(o.dist.pmf, np.arange(start - 3, start + K))))
    # P(at least K failures) = B(a, b + K) / B(a, b)
    want = 1 - mp.exp(ref.lbeta(M(a), M(b) + K) - ref.lbeta(M(a), M(b)))
    expect(abs(M(got) - want) <= 1e-13 * size(a, b, K) + 1e-10, "BetaGeometric(%r, %r): mass of the first %d values is %r, should be %s", a, b, K, got, mp.nstr(want, 14))
    rec.nontrivial()


@sub("C10", "compound-gamma-total", st.fixed_dictionaries(dict(a=gen.pos(0.1, 1e5), b=gen.pos(0.1, 1e5), q=gen.pos(1e-3, 1e4))), quick=200, rule="always")
def cgtot(c, rec):
    import conjugate.distributions as D

    a, b, q = c["a"], c["b"], c["q"]
    w = math.sqrt(1 / a + 1 / b)
    m = math.log(a / b)
    lo, hi = m - 20 * w - 40 / a, m + 20 * w + 40 / b
    s = np.linspace(lo, hi, 8001)
    x = q * np.exp(s)
    f = np.asarray(sut(D.CompoundGamma(a, b, q).dist.pdf, x)) * x
    got = float(np.sum(f) * (s[1] - s[0]))
    expect(abs(got - 1) <= 1e-8 + 1e-12 * size(a, b), "CompoundGamma(%r, %r, %r): total %r", a, b, q, got)
    rec.nontrivial()


# ------------------------------------------------------------------ the mixture, by quadrature over the mixing law
@sub("C10", "beta-geometric-mixture", st.fixed_dictionaries(dict(a=gen.pos(0.2, 1e4), b=gen.pos(0.2, 1e4), k=gen.integer(0, 2000), one=st.booleans(), **{"as": FLAGS})), quick=200, rule="always")
def bgmix(c, rec):
    import conjugate.distributions as D

    a, b, k = c["a"], c["b"], c["k"]
    A, B = a + 1, b + k  # where the integrand lives
    w = math.sqrt(1 / A + 1 / B)
    m = math.log(A / B)
    s = np.linspace(m - 40 * w - 40 / A, m + 40 * w + 40 / B, 8001)
    lp, lq = -np.logaddexp(0, -s), -np.logaddexp(0, s)
    # geometric mass times beta density times dp/ds
    f = np.exp(lp + k * lq + (a - 1) * lp + (b - 1) * lq - sc.betaln(a, b) + lp + lq)
    want = float(np.sum(f) * (s[1] - s[0]))
    got = float(sut(D.BetaGeometric(a, b, one_start=flagged(c)).dist.pmf, k + (1 if c["one"] else 0)))
    expect(abs(got - want) <= (1e-8 + 1e-13 * size(a, b, k)) * want + 1e-280, "BetaGeometric(%r, %r) mass after %d failures %r, mixture %r", a, b, k, got, want)
    rec.nontrivial()


@sub("C10", "compound-gamma-mixture", st.fixed_dictionaries(dict(a=gen.pos(0.2, 1e4), b=gen.pos(0.2, 1e4), q=gen.pos(1e-2, 1e3), t=st.floats(-4, 4))), quick=200, rule="always")
def cgmix(c, rec):
    import conjugate.distributions as D

    a, b, q = c["a"], c["b"], c["q"]
    x = q * math.exp(math.log(a / b) + c["t"] * math.sqrt(1 / a + 1 / b))
    A, R = a + b, x + q
    s = np.linspace(math.log(A / R) - 40 / math.sqrt(A) - 40 / A, math.log(A / R) + 40 / math.sqrt(A), 8001)
    g = np.exp(s)
    f = np.exp(a * s - sc.gammaln(a) + (a - 1) * math.log(x) - g * x + b * math.log(q) - sc.gammaln(b) + (b - 1) * s - q * g + s)
    want = float(np.sum(f) * (s[1] - s[0]))
    got = float(sut(D.CompoundGamma(a, b, q).dist.pdf, x))
    expect(abs(got - want) <= (1e-8 + 1e-12 * size(a, b)) * want, "CompoundGamma(%r, %r, %r) density at %r is %r, mixture %r", a, b, q, x, got, want)
    rec.nontrivial()


# ------------------------------------------------------------------ draws
@st.composite
def rvs_case(draw):
    cls = draw(st.sampled_from(["BetaGeometric", "CompoundGamma"]))
    shape = draw(st.sampled_from([[], [], [1], [2], [3], [2, 2], [2, 1]]))
    names = ["alpha", "beta"] if cls == "BetaGeometric" else ["alpha", "beta", "lam"]
    k = int(np.prod(shape))
    par = {}
    for n in names:
        s = shape if draw(st.booleans()) else []
        par[n] = [s, [draw(gen.num(0.5, 20)) for _ in range(int(np.prod(s)))]]
    lead = draw(st.sampled_from([None, [], [1], [4], [3, 2], [0]]))
    return {"cls": cls, "par": par, "lead": lead, "one": draw(st.booleans()), "as": draw(FLAGS), "seed": draw(gen.SEEDS), "rs": draw(st.sampled_from(["int", "npint", "gen", "rs"])),
            "intsize": draw(st.booleans())}


def rstate(kind, seed):
    return {"int": lambda: int(seed), "npint": lambda: np.int64(seed), "gen": lambda: np.random.default_rng(seed),
            "rs": lambda: np.random.RandomState(seed)}[kind]()


def rng_state():
    s = np.random.get_state()
    return s[1].tobytes(), s[2:], random.getstate()


def mkdist(c):
    import conjugate.distributions as D

    par = {n: (np.array(v).reshape(s) if s else v[0]) for n, (s, v) in c["par"].items()}
    if c["cls"] == "BetaGeometric":
        par["one_start"] = flagged(c)
    return getattr(D, c["cls"])(**par), par


@sub("C10", "draws-shape-and-seed", rvs_case(), quick=300, rule="array parameters or a tuple size")
def rvs(c, rec):
    o, par = mkdist(c)
    full = np.broadcast_shapes(*[np.shape(v) for v in par.values()])
    if c["lead"] is None:
        kw, want = {}, full
    else:
        want = tuple(c["lead"]) + full
        kw = {"size": want[0] if len(want) == 1 and c["intsize"] else want}
    before = rng_state()
    a = sut(o.dist.rvs, random_state=rstate(c["rs"], c["seed"]), **kw)
    expect(rng_state() == before, "%s: drawing with a random state of its own (%s) changed the global one", c["cls"], c["rs"])
    np.random.seed(1)
    np.random.rand(3)
    b = sut(o.dist.rvs, random_state=rstate(c["rs"], c["seed"]), **kw)
    expect(np.shape(a) == want, "%s: size %r with parameters of shape %r gave draws of shape %r", c["cls"], kw.get("size"), full, np.shape(a))
    expect(np.array_equal(a, b), "the same random state gave different draws")
    v = np.asarray(a)
    if c["cls"] == "BetaGeometric":
        lo = 1 if c["one"] else 0
        expect(v.dtype.kind in "iu" or (v == np.floor(v)).all(), "draws are not integers: %r", v)
        expect((v >= lo).all(), "draws below %d: %r", lo, v)
    else:
        expect((v >= 0).all() and np.isfinite(v).all(), "draws %r", v)
    if v.size >= 4 and c["cls"] == "CompoundGamma":
        expect(len(np.unique(v)) > 1, "all draws equal")
        for step in (1, 2**8, 2**16, 2**20, 2**30, 10**4, 10**6):
            d = sut(o.dist.rvs, random_state=rstate(c["rs"], (c["seed"] + step) % 2**32), **kw)
            expect(not np.array_equal(a, d), "seeds %d and %d gave the same draws", c["seed"], (c["seed"] + step) % 2**32)
    rec.nontrivial(len(want) > 0)
    rec.label(c["cls"], c["rs"], "ndim=%d" % len(want))


@st.composite
def ks_case(draw):
    cls = draw(st.sampled_from(["BetaGeometric", "CompoundGamma"]))
    names = ["alpha", "beta"] if cls == "BetaGeometric" else ["alpha", "beta", "lam"]
    g = draw(st.sampled_from([0, 0, 2]))
    # small shapes: heavy tails, over dozens of orders of magnitude
    v = st.one_of(gen.num(0.7, 12), gen.num(0.7, 12), gen.pos(0.7, 1e5), gen.num(0.12, 0.7))
    par = {n: ([[g], [draw(v) for _ in range(g)]] if g and draw(st.booleans()) else [[], [draw(v)]]) for n in names}
    return {"cls": cls, "par": par, "cols": draw(st.sampled_from([None, None, 1, 2, 3])), "one": draw(st.booleans()), "as": draw(FLAGS), "seed": draw(gen.SEEDS), "rs": draw(st.sampled_from(["int", "gen", "rs", "none"]))}


@sub("C10", "draws-law", ks_case(), quick=120, thorough=3000, rule="always")
def law(c, rec):
    o, par = mkdist(c)
    full = np.broadcast_shapes(*[np.shape(v) for v in par.values()])
    n = 3000
    rs = None if c["rs"] == "none" else rstate(c["rs"], c["seed"])
    if rs is None:
        np.random.seed(c["seed"] % 2**32)
    lead = (n,) if c["cols"] is None else (n, c["cols"])
    x = np.asarray(sut(o.dist.rvs, size=lead + full, random_state=rs)).reshape(n, -1)
    if c["cls"] == "BetaGeometric":  # what exceeds the integer type comes out as its smallest or largest member
        x = np.where((x < -1) | (x > 2**58), 2.0**60, x.astype(float))
    pp = {k: np.broadcast_to(np.asarray(v, float), lead[1:] + full).ravel() for k, v in par.items() if k != "one_start"}
    if rs is None:  # no state given: fresh draws every time
        again = np.asarray(sut(o.dist.rvs, size=lead + full)).reshape(n, -1)
        expect(len(np.unique(x)) < n / 10 or not np.array_equal(x, again), "two requests without a random state gave the same %d draws", n)
    U = []
    for j in range(x.shape[1]):
        p = {k: float(v[j]) for k, v in pp.items()}
        u = np.sort(x[:, j])
        if c["cls"] == "CompoundGamma":
            cdf = lambda z: np.where(z < p["lam"], sc.betainc(p["alpha"], p["beta"], z / (z + p["lam"])), 1 - sc.betainc(p["beta"], p["alpha"], p["lam"] / (z + p["lam"])))
            pv = cdfs.ks(u, cdf(u))
            U.append(cdf(x[:, j]))
        else:
            k = u - (1 if c["one"] else 0)  # failures
            sf = lambda m: np.exp(sc.betaln(p["alpha"], p["beta"] + np.maximum(m, 0)) - sc.betaln(p["alpha"], p["beta"]))
            pv = cdfs.ks(u, (1 - sf(k), 1 - sf(k + 1)))
            k = x[:, j] - (1 if c["one"] else 0)
            U.append(1 - (sf(k) + sf(k + 1)) / 2)
        expect(pv > cdfs.LIMIT, "%s(%r), random state %s: %d draws do not follow the law (p-value bound %.2g)", c["cls"], p, c["rs"], n, pv)
    # draws are independent of one another: successive ones, and the several of one row
    for j, u in enumerate(U):
        for what, v in [("successive draws", (u[:-1], u[1:]))] + [("draws %d and %d of a row" % (j, i), (u, U[i])) for i in range(j)]:
            if min(np.std(v[0]), np.std(v[1])) < 0.15:  # rare events: no normal limit
                continue
            rho = np.corrcoef(*v)[0, 1]
            expect(abs(rho) < 8 / math.sqrt(n), "%s: %s have correlation %r", c["cls"], what, rho)
    rec.nontrivial()
    rec.label(c["cls"], c["rs"], "array" if full else "scalar")
