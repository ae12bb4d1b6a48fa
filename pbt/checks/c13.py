"""C13: joint samplers draw from the documented joint distribution."""
import math

import numpy as np
import scipy.special as sc
from hypothesis import strategies as st

from pbt import cdfs, gen
from pbt.core import expect, fail, sub, sut
from pbt.mvmodels import E

UNI, MVS = ["nig", "ng"], ["nign", "niw", "nw"]
RS = ["none", "int", "npint", "randomstate", "generator"]
MU1 = st.one_of(st.sampled_from([0.0, 3.0, -50.0]), st.floats(-100, 100))
SH = st.one_of(gen.num(0.5, 50), gen.num(0.5, 3))


@st.composite
def params(draw, kinds):
    k = draw(st.sampled_from(kinds))
    if k in UNI:
        return {"k": k, "mu": draw(MU1), "kappa": draw(gen.pos(0.02, 200)), "alpha": draw(SH), "beta": draw(gen.pos(0.02, 500))}
    p = draw(st.sampled_from([2, 3, 4, 2, 5, 6, 1]))
    c = {"k": k, "p": p, "mu": draw(gen.vec(E, p)), "S": draw(gen.spd(p))}
    if k == "nign":
        c.update(alpha=draw(SH), beta=draw(gen.pos(0.02, 500)))
    else:
        c.update(kappa=draw(gen.pos(0.02, 200)), nu=p + draw(st.one_of(gen.num(2, 50), gen.num(2, 4))))
    return c


def make(c):
    import conjugate.distributions as D

    if c["k"] == "nig":
        return D.NormalInverseGamma(mu=c["mu"], nu=c["kappa"], alpha=c["alpha"], beta=c["beta"])
    if c["k"] == "ng":
        return D.NormalGamma(mu=c["mu"], lam=c["kappa"], alpha=c["alpha"], beta=c["beta"])
    mu, S = np.array(c["mu"], float), np.array(c["S"], float)
    if c["k"] == "nign":
        return D.NormalInverseGamma(mu=mu, delta_inverse=S, alpha=c["alpha"], beta=c["beta"])
    if c["k"] == "niw":
        return D.NormalInverseWishart(mu=mu, kappa=c["kappa"], nu=c["nu"], psi=S)
    return D.NormalWishart(mu=mu, lam=c["kappa"], W=S, nu=c["nu"])


def rstate(kind, seed):
    if kind == "none":
        np.random.seed(seed)
        return None
    return {"int": lambda s: s, "npint": lambda s: np.int64(s), "randomstate": np.random.RandomState, "generator": np.random.default_rng}[kind](seed)


def vshape(c, n):
    return (n, c["p"], c["p"]) if c["k"] in ("niw", "nw") else (n,)


def mshape(c, n):
    return (n, c["p"]) if c["k"] in MVS else (n,)


def full(c, m, v, n, what):
    """arrays of the full shapes; one-dimensional problems may leave out the axes of length one (the existing tests ask for it)"""
    out = []
    for x, shape, label in ((m, mshape(c, n), ""), (v, vshape(c, n), "the variance of ")):
        if x is None:
            continue
        got = np.shape(x)
        short = tuple(k for i, k in enumerate(shape) if i == 0 or k != 1)
        expect(isinstance(x, np.ndarray) and got in (shape, short if c.get("p") == 1 else shape), "%s%s has shape %r, should be %r", label, what, got, shape)
        out.append(np.reshape(x, shape))
    return out if len(out) > 1 else out[0]


def names(c):
    return ["sample_mean", "sample_beta"] if c["k"] in ("nig", "ng", "nign") else ["sample_mean"]


def tri(A):
    """standard normal / chi-squared coordinates of standard Wishart matrices (Bartlett)"""
    return np.linalg.cholesky(A)


def vpivots(c, v):
    """{name: values that are independent and uniform under the documented law of the variance}"""
    k = c["k"]
    if k in ("nig", "ng", "nign"):
        return {"variance": sc.gammaincc(c["alpha"], c["beta"] / v)}
    S = np.array(c["S"], float)
    p, nu = c["p"], float(c["nu"])
    if k == "niw":
        # V ~ IW(nu, psi): W = V^-1 ~ W(nu, psi^-1)
        W, L = np.linalg.inv(v), np.linalg.cholesky(np.linalg.inv(S))
    else:
        W, L = np.linalg.inv(v), np.linalg.cholesky(S)
    Li = np.linalg.inv(L)
    A = Li @ W @ Li.T
    T = tri((A + np.swapaxes(A, 1, 2)) / 2)
    out = {}
    for i in range(p):
        out["variance[%d,%d]" % (i, i)] = sc.gammainc((nu - i) / 2, T[:, i, i] ** 2 / 2)
        for j in range(i):
            out["variance[%d,%d]" % (i, j)] = sc.ndtr(T[:, i, j])
    return out


def mpivots(c, m, v):
    k = c["k"]
    if k in UNI:
        return {"mean": sc.ndtr((m - c["mu"]) * np.sqrt(c["kappa"] / v))}
    d = m - np.array(c["mu"], float)
    if k == "nign":
        L = np.linalg.cholesky(np.array(c["S"], float))
        z = np.linalg.solve(L, d.T).T / np.sqrt(v)[:, None]
    else:
        L = np.linalg.cholesky(v / c["kappa"])
        z = np.linalg.solve(L, d[..., None])[..., 0]
    return {"mean[%d]" % i: sc.ndtr(z[:, i]) for i in range(z.shape[1])}


def uniform(u, what):
    expect(np.isfinite(u).all(), "%s: not finite", what)
    u = np.sort(u)
    p = cdfs.ks(u, u)
    expect(p > cdfs.LIMIT, "%s not uniform under the documented law: p <= %.1e over %d draws (quartiles %s)", what, p, len(u),
           np.round(np.quantile(u, [0.25, 0.5, 0.75]), 3).tolist())


def independent(us, what):
    """every pair of coordinates, and successive draws, are independent: sums modulo one stay uniform, correlations vanish"""
    keys = sorted(us)
    n = len(us[keys[0]])
    h = n // 2
    for i, a in enumerate(keys):
        for b in keys[i:]:
            for lag in (0, 1):
                if lag == 0 and a == b:
                    continue
                x, y = us[a], us[b]
                if lag:
                    x, y = x[: 2 * h : 2], y[1 : 2 * h : 2]
                for s in (1, -1):
                    uniform((x + s * y) % 1.0, "%s: %s and %s%s dependent: combination" % (what, a, b, " of the next draw" if lag else ""))
                z = 12 * np.mean((x - 0.5) * (y - 0.5)) * math.sqrt(len(x))
                expect(abs(z) < 9, "%s: %s and %s%s correlated (%.1f standard errors)", what, a, b, " of the next draw" if lag else "", z)


def distinct(x, what):
    f = np.asarray(x).reshape(len(x), -1)
    expect(len(np.unique(f, axis=0)) == len(f), "%s: %d of %d draws are repeats", what, len(f) - len(np.unique(f, axis=0)), len(f))


def judge(c, m, v, what):
    us = vpivots(c, v)
    us.update(mpivots(c, m, v))
    for k, u in us.items():
        uniform(u, "%s: %s" % (what, k))
    independent(us, what)


@st.composite
def lawcase(draw, kinds):
    c = draw(params(kinds))
    return {"d": c, "rs": draw(st.sampled_from(RS)), "seed": draw(gen.SEEDS), "fn": draw(st.integers(0, 1))}


def law(n):
    def check(c, rec):
        d = c["d"]
        o = make(d)
        f = names(d)[c["fn"] % len(names(d))]
        r = sut(getattr(o, f), size=n, return_variance=True, random_state=rstate(c["rs"], c["seed"]))
        expect(isinstance(r, tuple) and len(r) == 2, "%s(return_variance=True) returned %s", f, type(r).__name__)
        m, v = full(d, r[0], r[1], n, f)
        distinct(m, f)
        distinct(v, "variance")
        judge(d, m, v, "%s, random_state %s" % (f, c["rs"]))
        rec.nontrivial()
        rec.label(d["k"], c["rs"])

    return check


sub("C13", "law-univariate", lawcase(UNI), quick=120, thorough=3000, rule="always", shards=2)(law(20000))
sub("C13", "law-multivariate", lawcase(MVS), quick=160, thorough=1500, rule="always", shards=4)(law(3000))


# ------------------------------------------------------------------ the variance sampler alone
@sub("C13", "law-variance", lawcase(UNI + MVS), quick=100, thorough=2000, rule="always", shards=2)
def lawv(c, rec):
    d = c["d"]
    o = make(d)
    n = 20000 if d["k"] not in ("niw", "nw") else 5000
    v = full(d, None, sut(o.sample_variance, size=n, random_state=rstate(c["rs"], c["seed"])), n, "sample_variance")
    distinct(v, "sample_variance")
    us = vpivots(d, v)
    for k, u in us.items():
        uniform(u, "sample_variance: " + k)
    independent(us, "sample_variance")
    rec.nontrivial()
    rec.label(d["k"], c["rs"])


# ------------------------------------------------------------------ one prior per group, draws for all groups at once
@st.composite
def groupcase(draw):
    k = draw(st.sampled_from(UNI))
    g, r = draw(st.integers(1, 4)), draw(st.integers(0, 2))
    par = {}
    for f, s in (("mu", MU1), ("kappa", gen.pos(0.02, 200)), ("alpha", SH), ("beta", gen.pos(0.02, 500))):
        how = draw(st.sampled_from(["scalar", "row", "row", "column"] if r else ["scalar", "row", "row"]))
        par[f] = draw(s) if how == "scalar" else [how] + draw(gen.vec(s, g if how == "row" else r))
    return {"k": k, "g": g, "r": r, "par": par, "rs": draw(st.sampled_from(RS)), "seed": draw(gen.SEEDS), "fn": draw(st.integers(0, 1))}


@sub("C13", "law-groups", groupcase(), quick=80, thorough=1500, rule="a parameter differs between groups", shards=2)
def groups(c, rec):
    arr = {f: np.array(v[1:], float).reshape((-1, 1) if v[0] == "column" else (-1,)) if isinstance(v, list) else v for f, v in c["par"].items()}
    n = 4000
    tail = (c["r"], c["g"]) if c["r"] else (c["g"],)
    size = (n, *tail)
    o = make({"k": c["k"], **arr})
    f = names(c)[c["fn"]]
    r = sut(getattr(o, f), size=size, return_variance=True, random_state=rstate(c["rs"], c["seed"]))
    expect(isinstance(r, tuple) and len(r) == 2, "%s(return_variance=True) returned %s", f, type(r).__name__)
    m, v = r
    expect(np.shape(m) == size and np.shape(v) == size, "%s(size=%r) has shapes %r and %r", f, size, np.shape(m), np.shape(v))
    distinct(np.reshape(m, (-1, 1)), f)
    last = None
    for i in np.ndindex(*tail):
        d = {"k": c["k"], **{q: float(np.broadcast_to(x, tail)[i]) for q, x in arr.items()}}
        mi, vi = m[(slice(None), *i)], v[(slice(None), *i)]
        judge(d, mi, vi, "%s, group %r, random_state %s" % (f, i, c["rs"]))
        us = {**vpivots(d, vi), **mpivots(d, mi, vi)}
        if last is not None:
            for a in us:
                for b in last:
                    uniform((us[a] + last[b]) % 1.0, "%s: %s of group %r and %s of the group before it dependent" % (f, a, i, b))
        last = us
    w = sut(o.sample_variance, size=size, random_state=rstate(c["rs"], c["seed"]))
    expect(np.shape(w) == size, "sample_variance(size=%r) has shape %r", size, np.shape(w))
    rec.nontrivial(any(isinstance(x, list) and len(set(x[1:])) > 1 for x in c["par"].values()))
    rec.label(c["k"], c["rs"], "groups=%d" % len(tail))


# ------------------------------------------------------------------ many small requests
@st.composite
def smallcase(draw, kinds):
    return {"d": draw(params(kinds)), "rs": draw(st.sampled_from(RS)), "seed": draw(st.integers(0, 2**30)), "size": draw(st.sampled_from([1, 1, 2, 3, 5])),
            "shared": draw(st.booleans())}


def small(total):
    def check(c, rec):
        d, n = c["d"], c["size"]
        o = make(d)
        reps = total // n
        rs = rstate(c["rs"], c["seed"])
        ms, vs = [], []
        for i in range(reps):
            if c["rs"] in ("int", "npint") or not (c["shared"] or c["rs"] == "none"):
                rs = rstate(c["rs"], c["seed"] + i)
            m, v = sut(o.sample_mean, size=n, return_variance=True, random_state=rs)
            m, v = full(d, m, v, n, "sample_mean(size=%d)" % n)
            ms.append(m)
            vs.append(v)
        m, v = np.concatenate(ms), np.concatenate(vs)
        distinct(m, "draws over %d calls" % reps)
        judge(d, m, v, "%d calls of size %d, random_state %s" % (reps, n, c["rs"]))
        rec.nontrivial()
        rec.label(d["k"], c["rs"], "size=%d" % n)

    return check


sub("C13", "small-requests-univariate", smallcase(UNI), quick=25, thorough=400, rule="always", shards=2)(small(2000))
sub("C13", "small-requests-multivariate", smallcase(MVS), quick=25, thorough=400, rule="always", shards=2)(small(1200))


# ------------------------------------------------------------------ shapes, reproducibility, return_variance
@st.composite
def repcase(draw):
    return {"d": draw(params(UNI + MVS)), "rs": draw(st.sampled_from(RS)), "seed": draw(gen.SEEDS),
            "size": draw(st.one_of(st.integers(1, 6), gen.integer(1, 60))), "npsize": draw(st.booleans())}


def same(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    expect(a.shape == b.shape and np.array_equal(a, b), "%s", what)


@sub("C13", "shapes-and-reproducibility", repcase(), quick=400, thorough=8000, rule="always", shards=2)
def rep(c, rec):
    d, n = c["d"], c["size"]
    o = make(d)
    before = {k: np.array(v, copy=True) if v is not None else None for k, v in vars(o).items() if not k.startswith("_")}
    N = np.int64(n) if c["npsize"] else n
    rs = lambda: rstate(c["rs"], c["seed"])
    first = None
    for f in names(d):
        a = sut(getattr(o, f), size=N, random_state=rs())
        full(d, a, None, n, "%s(size=%d)" % (f, n))
        expect(np.isfinite(a).all(), "%s drew %r", f, a)
        same(a, sut(getattr(o, f), size=N, random_state=rs()), "%s: equal random states gave different draws" % f)
        m, v = sut(getattr(o, f), size=N, return_variance=True, random_state=rs())
        same(a, m, "%s: asking for the variance changed the mean draws" % f)
        full(d, m, v, n, "%s(size=%d)" % (f, n))
        m2, v2 = sut(getattr(o, f), size=N, return_variance=True, random_state=rs())
        same(v, v2, "%s: equal random states gave different variances" % f)
        for step in (1, 2**8, 2**16, 2**20, 2**30, 10**4, 10**6):
            b = sut(getattr(o, f), size=N, random_state=rstate(c["rs"], (c["seed"] + step) % 2**32))
            expect(not np.array_equal(a, b), "%s: seeds %d and %d gave the same draws", f, c["seed"], (c["seed"] + step) % 2**32)
        if first is not None:
            same(first, a, "sample_mean and sample_beta differ for equal random states")
        first = a
        # an equal distribution built anew draws the same
        same(a, sut(getattr(make(d), f), size=N, random_state=rs()), "%s: an equal distribution with an equal random state drew differently" % f)
    v = sut(o.sample_variance, size=N, random_state=rs())
    full(d, None, v, n, "sample_variance(size=%d)" % n)
    same(v, sut(o.sample_variance, size=N, random_state=rs()), "sample_variance: equal random states gave different draws")
    w = full(d, None, v, n, "sample_variance")
    expect(np.isfinite(w).all(), "sample_variance drew %r", w)
    if w.ndim == 3:
        expect(np.allclose(w, np.swapaxes(w, 1, 2), rtol=1e-6) and (np.linalg.eigvalsh((w + np.swapaxes(w, 1, 2)) / 2) > 0).all(), "sample_variance drew a matrix that is not positive definite")
    else:
        expect((w > 0).all(), "sample_variance drew %r", w)
    if c["rs"] in ("randomstate", "generator"):
        g = rs()
        a, b = sut(o.sample_mean, size=N, random_state=g), sut(o.sample_mean, size=N, random_state=g)
        expect(not np.array_equal(a, b), "two calls sharing one generator gave the same draws")
    if c["rs"] != "none":
        np.random.seed(1)
        s0 = np.random.get_state()[1].copy(), np.random.get_state()[2]
        sut(o.sample_mean, size=N, random_state=rs())
        s1 = np.random.get_state()[1], np.random.get_state()[2]
        expect(np.array_equal(s0[0], s1[0]) and s0[1] == s1[1], "sampling with its own random state advanced the global one")
    else:
        a, b = sut(o.sample_mean, size=N), sut(o.sample_mean, size=N)
        expect(not np.array_equal(a, b), "two calls without random state gave the same draws")
    for k, x in before.items():
        y = getattr(o, k)
        expect((x is None and y is None) or np.array_equal(x, np.asarray(y)), "sampling changed %s", k)
    rec.nontrivial()
    rec.label(d["k"], c["rs"], "size=1" if n == 1 else "size>1")
