"""C03: multivariate normal and regression posteriors obey Bayes' rule."""
import mpmath as mp
import numpy as np
from hypothesis import strategies as st

from pbt import mvmodels as mv
from pbt import ref
from pbt.checks.c01_02 import kernel_gap
from pbt.core import expect, sub, sut
from pbt.ref import M


def bayes(name):
    def check(c, rec):
        p = c["p"]
        kw = mv.stats(name, p, c["data"], c["known"], c["ints"])
        prior = mv.make_prior(name, c["prior"], c["ints"])
        post = mv.call(name, prior, kw)
        expect(type(post).__name__ == mv.PRIOR[name], "%s returned %s", name, type(post).__name__)
        want = mv.update(name, p, c["prior"], c["known"], c["data"], kw)
        k = mv.cond(name, c["prior"], c["known"])
        for f, (v, mag) in want.items():
            kk = k
            if f in ("mu", "cov", "delta_inverse", "beta") and name != mv.MV[3]:
                # inverting the posterior precision
                m = want.get("cov", want.get("delta_inverse"))[0]
                kk = k * np.linalg.cond(np.array(m.tolist(), float))
            rel = 2e-13 * kk + 1e-12
            if rel > 1e-3:
                rec.label("ill-conditioned")
                continue
            expect(mv.close_arr(getattr(post, f), v, mag, rel), "%s: %s = %r, Bayes' rule gives %s", name, f,
                   getattr(post, f), v)
        if name == "linear_regression":
            expect(post.nu is None, "regression posterior has nu=%r", post.nu)
        # posterior density itself
        f = {n: getattr(post, n) for n in want}
        t1, t2 = c["theta"]
        n = sum(m for _, m in c["data"])
        try:
            gap, mag = kernel_gap(
                lambda t: mv.logprior(name, f, t), lambda t: mv.logprior(name, c["prior"], t),
                lambda t: mv.loglik(name, p, c["data"], c["known"], t), t1, t2,
            )
        except ValueError:
            gap, mag = None, None
        # the formula inverts the matrix the posterior carries, and with it the rounding of its entries
        kk = k * max(np.linalg.cond(np.array(v.tolist(), float)) for v, _ in want.values() if isinstance(v, mp.matrix) and v.cols == v.rows)
        if gap is not None and kk < 1e6:
            expect(abs(gap) <= 1e-9 * kk * (mag + 1), "%s: log posterior - log prior - log likelihood varies by %s of %s",
                   name, mp.nstr(gap, 6), mp.nstr(mag, 6))
        if name in mv.MV[:3]:
            t = t1["mu"] if name in mv.MV[:2] else t1["S"]
            g = sut(lambda: post.dist.logpdf(np.array(t, float)))
            w = mv.logprior(name, f, t1)
            mx = max(abs(np.asarray(v, float)).max() for v in f.values())
            expect(abs(M(float(g)) - w) <= 1e-8 * k * (abs(w) + mx * 100 + 100), "%s: density of the posterior %r, formula %s", name, g, mp.nstr(w, 15))
        rec.nontrivial(p >= 2 and n >= 2)
        rec.label("p=%d" % p, "n=1" if n == 1 else "n>1", "ints" if c["ints"] else "floats")

    return check


for nm in mv.ALL:
    sub("C03", "bayes-" + nm, mv.case_st(nm), quick=250, thorough=6000, shards=2,
        rule="dimension at least 2 and at least 2 rows")(bayes(nm))


# ------------------------------------------------------------------ other units, long histories, layouts in memory
LAYOUT = {
    "C": lambda a: a,
    "F": lambda a: np.asfortranarray(a),
    "strided": lambda a: np.repeat(np.asarray(a), 2, axis=0)[::2],
    "reversed": lambda a: np.ascontiguousarray(np.asarray(a)[::-1])[::-1],
    "read-only": lambda a: _ro(np.array(a)),
}
COUNT = {"int": int, "float": float, "int64": np.int64, "float64": np.float64}


def _ro(a):
    a.setflags(write=False)
    return a


@st.composite
def far_st(draw, name):
    c = draw(mv.case_st(name, lo=0 if name != mv.MV[3] else 1, mhi=10**7 if name in mv.MV[:2] else 40))
    u = 10.0 ** draw(st.integers(-6, 6))
    lay, cnt = draw(st.sampled_from(sorted(LAYOUT))), draw(st.sampled_from(sorted(COUNT)))
    sc = {k: draw(st.floats(-7, 7).map(lambda t: float("%.3g" % 10**t))) for k in ("kappa", "alpha", "beta")}
    dof = c["p"] - 1 + 10 ** draw(st.floats(-5, 7))
    return {**c, "ints": False, "unit": u, "layout": lay, "count": cnt, "far": sc, "dof": dof}


def scaled(name, c):
    """the case with its rows in units u, and the scalar hyperparameters replaced by the far ones"""
    u, p = c["unit"], c["p"]
    v1, v2 = lambda v: [x * u for x in v], lambda m: [[x * u * u for x in r] for r in m]
    q = dict(c["prior"])
    known = dict(c["known"])
    for k in ("kappa", "alpha"):
        if k in q:
            q[k] = c["far"][k]
    if "nu" in q:
        q["nu"] = c["dof"]
    q["mu"] = v1(q["mu"]) if "mu" in q else None
    q = {k: v for k, v in q.items() if v is not None}
    if "beta" in q:
        q["beta"] = c["far"]["beta"] * u * u
    for k in ("cov", "psi"):
        if k in q:
            q[k] = v2(q[k])
    if "mu" in known:
        known["mu"] = v1(known["mu"])
    if "cov" in known:
        known["cov"] = v2(known["cov"])
    if "precision" in known:
        known["precision"] = [[x / u / u for x in r] for r in known["precision"]]
    if name == "linear_regression":
        data = [[r[:p] + [r[p] * u], m] for r, m in c["data"]]
    else:
        data = [[v1(r), m] for r, m in c["data"]]
    return q, known, data


def far(name):
    def check(c, rec):
        q, known, data = scaled(name, c)
        kw = mv.stats(name, c["p"], data, known)
        lay = LAYOUT[c["layout"]]
        kw = {k: lay(v) if isinstance(v, np.ndarray) else v for k, v in kw.items()}
        if "n" in kw:
            kw["n"] = COUNT[c["count"]](kw["n"])
        prior = mv.make_prior(name, q)
        for k in q:
            if isinstance(q[k], list):
                setattr(prior, k, lay(getattr(prior, k)))
        post = mv.call(name, prior, kw)
        want = mv.update(name, c["p"], q, known, data, kw)
        k = mv.cond(name, q, known)
        for f, (v, mag) in want.items():
            kk = k
            if f in ("mu", "cov", "delta_inverse", "beta") and name != mv.MV[3]:
                kk = k * np.linalg.cond(np.array(want.get("cov", want.get("delta_inverse"))[0].tolist(), float))
            rel = 2e-13 * kk + 1e-12
            if rel > 1e-3:
                rec.label("ill-conditioned")
                continue
            expect(mv.close_arr(getattr(post, f), v, mag, rel), "%s (unit %g, %s arrays): %s = %r, Bayes' rule gives %s",
                   name, c["unit"], c["layout"], f, getattr(post, f), v)
        n = sum(m for _, m in data)
        rec.nontrivial(n > 0 and (c["unit"] != 1 or n > 1000))
        rec.label("no rows" if n == 0 else "", "small units" if c["unit"] < 0.01 else "large units" if c["unit"] > 100 else "",
                  "n>1000" if n > 1000 else "", c["layout"])

    return check


for nm in mv.ALL:
    sub("C03", "far-" + nm, far_st(nm), quick=60, thorough=3000,
        rule="at least one row, in units other than 1 or more than 1000 of them")(far(nm))
