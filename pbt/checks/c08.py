"""C08: indexing selects exactly the addressed sub-problem."""
import math

import mpmath as mp
import numpy as np
from hypothesis import strategies as st

from pbt import dists, gen, models, mvmodels as mv, preds, ref
from pbt.checks.c07 import LAYOUT, build, same, value
from pbt.core import Violation, expect, fail, sub, sut
from pbt.ref import M, col, mm


# ------------------------------------------------------------------ keys
@st.composite
def key_st(draw, shape):
    """JSON description of an index into an array of the given shape"""
    n = shape[0]
    kind = draw(st.sampled_from(["int", "npint", "slice", "list", "array", "mask", "masklist", "tuple", "full", "array2"]))
    if kind in ("int", "npint"):
        return [kind, draw(st.integers(-n, n - 1))]
    if kind == "slice":
        b = st.one_of(st.none(), st.integers(-n - 1, n + 1))
        return [kind, draw(b), draw(b), draw(st.sampled_from([None, 1, 2, -1, 3, -2]))]
    if kind in ("list", "array"):
        return [kind, draw(st.lists(st.integers(-n, n - 1), min_size=1, max_size=5))]
    if kind == "array2":
        return [kind, draw(gen.mat(st.integers(-n, n - 1), 2, draw(st.integers(1, 2))))]
    if kind in ("mask", "masklist"):
        m = draw(st.lists(st.booleans(), min_size=n, max_size=n))
        if not any(m):
            m[0] = True
        return [kind, m]
    if kind == "tuple":
        parts = [draw(key_part(d)) for d in shape[: draw(st.integers(1, len(shape)))]]
        return [kind, parts]
    return ["mask", draw(masknd(shape))]


def masknd(shape):
    if len(shape) == 1:
        return st.lists(st.booleans(), min_size=shape[0], max_size=shape[0])
    return st.lists(masknd(shape[1:]), min_size=shape[0], max_size=shape[0])


@st.composite
def key_part(draw, n):
    kind = draw(st.sampled_from(["int", "slice"]))
    if kind == "int":
        return ["int", draw(st.integers(-n, n - 1))]
    b = st.one_of(st.none(), st.integers(0, n))
    return ["slice", draw(b), draw(b), draw(st.sampled_from([None, 1, -1]))]


def mkkey(k):
    kind = k[0]
    if kind == "int":
        return k[1]
    if kind == "npint":
        return np.int64(k[1])
    if kind == "slice":
        return slice(k[1], k[2], k[3])
    if kind == "list":
        return list(k[1])
    if kind in ("array", "array2"):
        return np.array(k[1])
    if kind == "mask":
        return np.array(k[1], bool)
    if kind == "masklist":
        return list(k[1])
    return tuple(mkkey(p) for p in k[1])


@st.composite
def common(draw, dom, all_arrays=False):
    """every argument a scalar or an array of one common shape"""
    nd = draw(st.sampled_from([1, 1, 1, 2, 3]))
    shape = [draw(st.integers(1, 5)) for _ in range(nd)]
    names = sorted(dom)
    arr = {n: all_arrays or draw(st.integers(0, 3)) > 0 for n in names}
    if not any(arr.values()):
        arr[names[0]] = True
    out = {}
    for n in names:
        s = shape if arr[n] else None
        k = int(np.prod(shape)) if arr[n] else 1
        out[n] = {"shape": s, "v": [draw(value(dom[n])) for _ in range(k)], "layout": draw(st.sampled_from(LAYOUT))}
    return {"args": out, "shape": shape, "key": draw(key_st(shape))}


def snapshot(obj):
    return {k: (np.array(v, copy=True), type(v)) for k, v in vars(obj).items()}


def unchanged(obj, snap, what):
    now = vars(obj)
    expect(set(snap) <= set(now), "%s removed attributes", what)
    for k, (v, t) in snap.items():
        expect(type(now[k]) is t and np.array_equal(np.asarray(now[k]), v), "%s changed %s of the original to %r", what, k, now[k])


def eq_field(got, want, what):
    g, w = np.asarray(got), np.asarray(want)
    expect(g.shape == w.shape, "%s has shape %r, should be %r", what, g.shape, w.shape)
    expect(np.array_equal(g, w), "%s = %r, should be %r", what, got, want)


def scalar_like(got, want):
    return type(got) is type(want) and got == want


def mk(d):
    def check(c, rec):
        vals = {n: build(a) for n, a in c["args"].items()}
        obj = sut(d.make, vals)
        key = mkkey(c["key"])
        snap = snapshot(obj)
        got = sut(obj.__getitem__, key)
        unchanged(obj, snap, "indexing")
        expect(type(got) is type(obj), "indexing %s returned %s", d.name, type(got).__name__)
        expect(got is not obj, "indexing returned the same object")
        for n, v in vals.items():
            if isinstance(v, np.ndarray):
                eq_field(getattr(got, n), v[key], "%s[%s].%s" % (d.name, c["key"], n))
            else:
                expect(getattr(got, n) == v, "scalar %s became %r", n, getattr(got, n))
        for n, v in d.consts.items():
            expect(getattr(got, n) is v, "flag %s became %r", n, getattr(got, n))
        # the law of the selected elements
        full = tuple(c["shape"])
        x = 0.37 if d.continuous else 2
        whole = np.broadcast_to(np.asarray(sut(getattr(obj.dist, d.pm), x)), full)[key]
        part = np.asarray(sut(getattr(got.dist, d.pm), x))
        expect(part.shape == whole.shape, "law of the selection has shape %r, should be %r", part.shape, whole.shape)
        expect(np.allclose(part, whole, rtol=1e-9, atol=1e-13, equal_nan=True), "law of the selection is %r, should be %r", part, whole)
        rec.nontrivial(int(np.prod(full)) > 1)
        rec.label(c["key"][0], "ndim=%d" % len(full), "with scalars" if any(a["shape"] is None for a in c["args"].values()) else "all arrays")

    return check


for d in dists.DISTS:
    sub("C08", "index-" + d.key, common(d.vec), quick=100, thorough=3000, rule="more than one element")(mk(d))


# ------------------------------------------------------------------ indices outside the parameters
@st.composite
def bad_case(draw):
    d = draw(st.sampled_from([x.key for x in dists.DISTS]))
    c = draw(common(dists.BY_KEY[d].vec))
    n = c["shape"][0]
    kind = draw(st.sampled_from(["int", "npint", "list", "array", "masklong", "tuple", "toomany"]))
    off = draw(st.one_of(st.integers(n, n + 5), st.integers(-n - 5, -n - 1)))
    if kind in ("int", "npint"):
        k = [kind, off]
    elif kind in ("list", "array"):
        k = [kind, draw(st.lists(st.integers(0, n - 1), max_size=2)) + [off]]
    elif kind == "masklong":
        k = ["mask", [True] * (n + draw(st.integers(1, 3)))]
    elif kind == "tuple":
        k = ["tuple", [["int", off]] + [["int", 0] for _ in c["shape"][1:]]]
    else:
        k = ["tuple", [["int", 0] for _ in range(len(c["shape"]) + 1)]]
    return {"d": d, "args": c["args"], "key": k}


@sub("C08", "index-outside-raises", bad_case(), quick=300, rule="always")
def bad(c, rec):
    d = dists.BY_KEY[c["d"]]
    obj = sut(d.make, {n: build(a) for n, a in c["args"].items()})
    snap = snapshot(obj)
    try:
        got = obj[mkkey(c["key"])]
    except (IndexError, TypeError, ValueError):
        got = None
    expect(got is None, "%s index %s outside the parameters returned %r", d.name, c["key"], got)
    unchanged(obj, snap, "a refused index")
    rec.nontrivial()
    rec.label(c["key"][0])


# ------------------------------------------------------------------ Multinomial / DirichletMultinomial
@st.composite
def multi_case(draw):
    g, k = draw(st.integers(1, 4)), draw(st.integers(2, 4))
    return {"cls": draw(st.sampled_from(["Multinomial", "DirichletMultinomial"])), "p": [draw(gen.simplex(k)) for _ in range(g)],
            "n": draw(gen.vec(st.integers(1, 9), g)) if draw(st.booleans()) else draw(st.integers(1, 9)), "key": draw(key_st([g]))}


@sub("C08", "index-multinomial", multi_case(), quick=150, rule="several rows")
def multi(c, rec):
    import conjugate.distributions as D

    p = np.array(c["p"])
    n = np.array(c["n"]) if isinstance(c["n"], list) else c["n"]
    nm = "p" if c["cls"] == "Multinomial" else "alpha"
    obj = getattr(D, c["cls"])(**{nm: p, "n": n})
    snap = snapshot(obj)
    key = mkkey(c["key"])
    got = sut(obj.__getitem__, key)
    unchanged(obj, snap, "indexing")
    expect(type(got) is type(obj), "returned %s", type(got).__name__)
    eq_field(getattr(got, nm), p[key], nm)
    eq_field(got.n, n[key] if isinstance(c["n"], list) else n, "n")
    rec.nontrivial(len(p) > 1)


# ------------------------------------------------------------------ commuting with models and predictives
SLICEABLE = {"Beta", "Gamma", "Normal", "InverseGamma", "ScaledInverseChiSquared", "Pareto"}


def commute(o, cls, fields, consts, run, out):
    def check(c, rec):
        import conjugate.distributions as D

        vals = {n: build(a) for n, a in c["args"].items()}
        key = mkkey(c["key"])
        pick = {n: (v[key] if isinstance(v, np.ndarray) else v) for n, v in vals.items()}
        prior = sut(getattr(D, cls), **{k: vals[k] for k in fields})
        full = sut(run, prior, {k: v for k, v in vals.items() if k not in fields})
        # a field that stays scalar because all its ingredients are scalar is kept as such
        part = sut(full.__getitem__, key) if any(np.ndim(getattr(full, f)) for f in out) else full
        small_prior = sut(prior.__getitem__, key) if any(np.ndim(vals[k]) for k in fields) else prior
        direct = sut(run, small_prior, {k: v for k, v in pick.items() if k not in fields})
        expect(type(part) is type(direct), "%s then %s", type(part).__name__, type(direct).__name__)
        for f in out:
            a, b = np.asarray(getattr(part, f)), np.asarray(getattr(direct, f))
            expect(a.shape == b.shape, "%s: indexing the result gives %s of shape %r, indexing the inputs %r", o.name, f, a.shape, b.shape)
            expect(np.allclose(a, b, rtol=1e-12, atol=0), "%s: indexing the result gives %s=%r, indexing the inputs %r", o.name, f, a, b)
        rec.nontrivial(int(np.prod(c["shape"])) > 1)
        rec.label(c["key"][0])

    return check


for m in models.MODELS:
    if m.prior in SLICEABLE:
        def run_m(prior, kw, m=m):
            import conjugate.models as F

            return getattr(F, m.fn)(prior=prior, **{k.split(".")[-1]: v for k, v in kw.items()}, **m.consts)

        sub("C08", "commute-" + m.key, common(m.vec), quick=60, thorough=2000, rule="more than one element")(
            commute(m, m.prior, list(m.fields), m.consts, run_m, sorted(m.fields)))
from pbt.vec import PF  # noqa: E402

for p in preds.PREDS:
    if p.dist in SLICEABLE:
        def run_p(dist, kw, p=p):
            import conjugate.models as F

            return getattr(F, p.name)(distribution=dist, **{k.split(".")[-1]: v for k, v in kw.items()}, **p.consts)

        sub("C08", "commute-" + p.key, common(p.vec), quick=60, thorough=2000, rule="more than one element")(
            commute(p, p.dist, list(p.fields), p.consts, run_p, PF[p.name]))


# ------------------------------------------------------------------ multivariate normal and Student-t: marginals
@st.composite
def mv_case(draw):
    p = draw(st.integers(1, 5))
    kind = draw(st.sampled_from(["int", "int", "npint", "slice", "slice", "list", "array", "mask"]))
    if kind in ("int", "npint"):
        key = [kind, draw(st.integers(-p, p - 1))]
    elif kind == "slice":
        b = st.one_of(st.none(), st.integers(-p, p))
        key = [kind, draw(b), draw(b), draw(st.sampled_from([None, 1, 2, -1]))]
    elif kind == "mask":
        key = [kind, draw(gen.vec(st.booleans(), p))]
    else:
        key = [kind, draw(st.lists(st.integers(-p, p - 1), min_size=1, max_size=p, unique_by=lambda v, p=p: v % p))]
    if kind in ("slice", "mask") and len(np.arange(p)[mkkey(key)]) == 0:
        key = ["list", [p - 1]]
    return {"p": p, "mu": draw(gen.vec(mv.E, p)), "S": draw(gen.spd(p)), "nu": draw(st.one_of(st.none(), gen.pos(0.5, 200), gen.pos(0.5, 1e5))), "key": key,
            "z": draw(gen.vec(st.floats(-3, 3), p)), "ints": draw(st.booleans())}


@sub("C08", "marginal-multivariate", mv_case(), quick=1500, rule="at least two coordinates")
def marg(c, rec):
    import conjugate.distributions as D

    p = c["p"]
    mu, S = mv.arr(c["mu"], c["ints"]), mv.arr(c["S"], c["ints"])
    t = c["nu"] is not None
    obj = D.MultivariateStudentT(mu, S, c["nu"]) if t else D.MultivariateNormal(mu, S)
    snap = snapshot(obj)
    key = mkkey(c["key"])
    got = sut(obj.__getitem__, key)
    unchanged(obj, snap, "indexing")
    if c["key"][0] in ("int", "npint"):
        i = c["key"][1] % p
        want = D.StudentT if t else D.Normal
        expect(type(got) is want, "a single coordinate gave %s", type(got).__name__)
        s = mp.sqrt(M(c["S"][i][i]))
        expect(np.ndim(got.mu) == 0 and np.ndim(got.sigma) == 0, "marginal parameters are not scalars: %r", got)
        expect(ref.close(got.mu, M(c["mu"][i])) and ref.close(got.sigma, s), "coordinate %d of mu=%r, S=%r gave %r", i, c["mu"], c["S"], got)
        x = float(M(c["mu"][i]) + s * M(c["z"][i]))
        w = ref.student(M(x), M(c["mu"][i]), s, M(c["nu"])) if t else ref.normal(M(x), M(c["mu"][i]), s)
        g = sut(lambda: got.dist.logpdf(x))
        expect(abs(M(float(g)) - w) < 1e-8 * (1 + abs(w)), "marginal density %r, should be %s", g, mp.nstr(w, 12))
        if t:
            expect(got.nu == c["nu"], "degrees of freedom %r", got.nu)
    else:
        idx = [int(v) for v in np.arange(p)[key]]
        expect(type(got) is type(obj), "several coordinates gave %s", type(got).__name__)
        sc = got.sigma if t else got.cov
        eq_field(got.mu, mu[idx], "mu[%s]" % c["key"])
        eq_field(sc, S[np.ix_(idx, idx)], "scale[%s]" % c["key"])
        if t:
            expect(got.nu == c["nu"], "degrees of freedom %r", got.nu)
        m_, S_ = [c["mu"][i] for i in idx], [[c["S"][i][j] for j in idx] for i in idx]
        x = np.array(m_, float) + np.array([c["z"][i] * S[i, i] ** 0.5 for i in idx])
        w = ref.mvt(col(x.tolist()), col(m_), mm(S_), M(c["nu"])) if t else ref.mvn(col(x.tolist()), col(m_), mm(S_))
        if np.linalg.cond(np.array(S_, float)) < 1e5:
            g = sut(lambda: got.dist.logpdf(x))
            expect(abs(M(float(g)) - w) < 1e-6 * (1 + abs(w)), "marginal density %r, should be %s", g, mp.nstr(w, 12))
        # marginalising in two steps
        if len(idx) > 1:
            a, b = sut(got.__getitem__, 1), sut(obj.__getitem__, idx[1])
            expect(type(a) is type(b) and ref.close(a.mu, M(b.mu)) and ref.close(a.sigma, M(b.sigma)), "marginal of a marginal %r, direct %r", a, b)
    rec.nontrivial(p >= 2)
    rec.label(c["key"][0], "t" if t else "normal")


@sub("C08", "marginal-outside-raises", st.tuples(st.integers(1, 4), st.booleans(), st.integers(0, 3), st.booleans()), quick=60, rule="always")
def margbad(c, rec):
    import conjugate.distributions as D

    p, t, off, neg = c
    obj = D.MultivariateStudentT(np.zeros(p), np.eye(p), 3.0) if t else D.MultivariateNormal(np.zeros(p), np.eye(p))
    k = -p - 1 - off if neg else p + off
    for key in (k, [0, k], np.int64(k)):
        try:
            got = obj[key]
        except (IndexError, TypeError, ValueError):
            continue
        fail("coordinate %r of %d gave %r" % (key, p, got))
    rec.nontrivial()


# regression predictive: the law at one design row is the indexed joint law
@sub("C08", "marginal-of-predictive", mv.case_st("linear_regression", maxrows=4), quick=120, rule="at least two design rows")
def pred_marg(c, rec):
    import conjugate.models as F

    prior = mv.make_prior("linear_regression", c["prior"])
    X = np.array([r[: c["p"]] for r, _ in c["data"]], float)
    whole = sut(F.linear_regression_predictive, distribution=prior, X=X)
    for i in range(len(X)):
        a = sut(whole.__getitem__, i)
        one = sut(F.linear_regression_predictive, distribution=prior, X=X[i : i + 1])
        b = sut(one.__getitem__, 0)
        expect(np.allclose([a.mu, a.sigma, a.nu], [b.mu, b.sigma, b.nu], rtol=1e-9, atol=1e-9 * (1 + np.abs(X).max() * np.abs(prior.mu).max())),
               "row %d of the joint predictive %r, predictive at that row %r", i, a, b)
    rec.nontrivial(len(X) > 1)
