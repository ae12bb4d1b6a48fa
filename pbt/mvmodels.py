"""Multivariate models: case generators, calls, exact references."""
import mpmath as mp
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import sut
from pbt.ref import M, col, mm

MV = ["multivariate_normal_known_covariance", "multivariate_normal_known_precision", "multivariate_normal_known_mean",
      "multivariate_normal"]
ALL = MV + ["linear_regression"]

E = st.one_of(gen.num(-20, 20), st.floats(-3, 3).map(lambda v: round(v, 3)))


WHOLE = st.one_of(st.integers(-20, 20), st.integers(-2, 2))


def dof(p):
    """degrees of freedom of a proper inverse Wishart law: anything above p - 1"""
    return st.one_of(gen.num(p + 1, 500), gen.pos(0.05, 3).map(lambda v: p - 1 + v))


def rows_st(p, lo=1, hi=5, mhi=300, value=E):
    return gen.items(gen.vec(value, p), lo, hi, mhi)


@st.composite
def prior_st(draw, name, p):
    if name in MV[:2]:
        return {"mu": draw(gen.vec(E, p)), "cov": draw(gen.spd(p))}
    if name == "multivariate_normal_known_mean":
        return {"nu": draw(dof(p)), "psi": draw(gen.spd(p))}
    if name == "multivariate_normal":
        return {"mu": draw(gen.vec(E, p)), "kappa": draw(gen.pos(0.05, 500)), "nu": draw(dof(p)),
                "psi": draw(gen.spd(p))}
    return {"mu": draw(gen.vec(E, p)), "delta_inverse": draw(gen.spd(p)), "alpha": draw(gen.pos(0.1, 500)),
            "beta": draw(gen.pos(0.1, 500))}


@st.composite
def known_st(draw, name, p):
    if name == MV[0]:
        return {"cov": draw(gen.spd(p))}
    if name == MV[1]:
        return {"precision": draw(gen.spd(p))}
    if name == MV[2]:
        return {"mu": draw(gen.vec(E, p))}
    return {}


@st.composite
def theta_st(draw, name, p):
    t = {}
    if name != MV[2]:
        t["mu"] = draw(gen.vec(E, p))
    if name in MV[2:]:
        t["S"] = draw(gen.spd(p))
    if name == "linear_regression":
        t["s2"] = draw(gen.pos(0.05, 100))
    return t


@st.composite
def case_st(draw, name, lo=1, pmax=4, pmin=1, mhi=300, maxrows=5):
    p = draw(st.integers(pmin, pmax))
    w = p + 1 if name == "linear_regression" else p  # last entry of a row is y
    return {
        "p": p, "prior": draw(prior_st(name, p)), "known": draw(known_st(name, p)),
        "data": draw(rows_st(w, lo, maxrows, mhi, WHOLE if (ints := draw(st.booleans())) else E)),
        "theta": [draw(theta_st(name, p)), draw(theta_st(name, p))],
        "ints": ints,
    }


PRIOR = dict(zip(MV, ["MultivariateNormal", "MultivariateNormal", "InverseWishart", "NormalInverseWishart"]))
PRIOR["linear_regression"] = "NormalInverseGamma"


def arr(v, ints=False):
    a = np.array(v, dtype=float)
    if ints and a.size and (a == np.round(a)).all():
        return a.astype(np.int64)
    return a


def make_prior(name, prior, ints=False):
    import conjugate.distributions as D

    return getattr(D, PRIOR[name])(**{k: (arr(v, ints) if isinstance(v, list) else v) for k, v in prior.items()})


def expand(data, w, ints=False):
    rows = [r for r, m in data for _ in range(m)]
    return arr(rows, ints).reshape(len(rows), w)


def stats(name, p, data, known, ints=False):
    """keyword arguments of the model function apart from prior (known ones included)"""
    kw = {k: arr(v, ints) for k, v in known.items()}
    if name in MV[:2]:
        n = sum(m for _, m in data)
        s = [mp.fsum(M(m) * M(r[i]) for r, m in data) for i in range(p)]
        kw.update(n=n, x_bar=arr([float(v / n) if n else 0.0 for v in s], ints))
    elif name == "linear_regression":
        R = expand(data, p + 1, ints)
        kw.update(X=R[:, :p].copy(), y=R[:, p].copy())
    else:
        kw["X"] = expand(data, p, ints)
    return kw


def call(name, prior_obj, kw, **more):
    import conjugate.models as F

    return sut(getattr(F, name), prior=prior_obj, **kw, **more)


# ------------------------------------------------------------------ exact references
def update(name, p, prior, known, data, kw=None):
    """{field: (matrix/col/scalar, magnitude)} exact; kw gives the x_bar actually passed"""
    n = sum(m for _, m in data)
    if name in MV[:2]:
        P0 = ref.inv(mm(prior["cov"]))
        P = ref.inv(mm(known["cov"])) if name == MV[0] else mm(known["precision"])
        xb = col(kw["x_bar"])
        P1 = P0 + n * P
        C1 = ref.inv(P1)
        a, b = P0 * col(prior["mu"]), n * (P * xb)
        mag = mp.norm(C1, mp.inf) * (mp.norm(a, mp.inf) + mp.norm(b, mp.inf))
        return {"mu": (C1 * (a + b), mag), "cov": (C1, mp.norm(C1, mp.inf))}
    if name == MV[2]:
        S = mp.zeros(p)
        for r, m in data:
            d = col(r) - col(known["mu"])
            S += m * d * d.T
        psi = mm(prior["psi"]) + S
        return {"nu": (M(prior["nu"]) + n,) * 2, "psi": (psi, mp.norm(psi, mp.inf))}
    if name == MV[3]:
        xb = mp.zeros(p, 1)
        for r, m in data:
            xb += m * col(r)
        xb = xb / n
        C = mp.zeros(p)
        size = mp.mpf(0)
        for r, m in data:
            d = col(r) - xb
            C += m * d * d.T
            size = max(size, mp.norm(col(r), mp.inf))
        k0 = M(prior["kappa"])
        k1 = k0 + n
        mu0 = col(prior["mu"])
        d = xb - mu0
        psi = mm(prior["psi"]) + C + (k0 * n / k1) * d * d.T
        big = max(size, mp.norm(mu0, mp.inf))
        return {
            "mu": ((k0 * mu0 + n * xb) / k1, big),
            "kappa": (k1, k1), "nu": (M(prior["nu"]) + n,) * 2,
            "psi": (psi, mp.norm(psi, mp.inf) + mp.mpf(10) ** -10 * n * big**2),
        }
    D = ref.inv(mm(prior["delta_inverse"]))
    XX, Xy, yy = mp.zeros(p), mp.zeros(p, 1), mp.mpf(0)
    for r, m in data:
        x, y = col(r[:p]), M(r[p])
        XX += m * x * x.T
        Xy += m * y * x
        yy += m * y * y
    D1 = D + XX
    V1 = ref.inv(D1)
    mu0 = col(prior["mu"])
    rhs = D * mu0 + Xy
    mu1 = V1 * rhs
    q0, q1 = ref.quad(D, mu0), ref.quad(D1, mu1)
    magm = mp.norm(V1, mp.inf) * (mp.norm(D * mu0, mp.inf) + mp.norm(Xy, mp.inf))
    return {
        "mu": (mu1, magm),
        "delta_inverse": (V1, mp.norm(V1, mp.inf)),
        "alpha": (M(prior["alpha"]) + mp.mpf(n) / 2,) * 2,
        "beta": (M(prior["beta"]) + (yy + q0 - q1) / 2,
                 M(prior["beta"]) + yy + q0 + mp.norm(D1, mp.inf) * magm**2),
    }


def cond(name, prior, known, post_mats=()):
    c = 1.0
    for v in list(prior.values()) + list(known.values()):
        if isinstance(v, list) and v and isinstance(v[0], list):
            c *= max(1.0, np.linalg.cond(np.array(v, float)))
    return c


def close_arr(got, want, mag, rel):
    """normwise comparison of an array with an mp matrix/scalar"""
    g = np.asarray(got, dtype=float)
    if isinstance(want, mp.matrix):
        w = np.array(want.tolist(), dtype=object)
        if w.shape[1] == 1 and (g.ndim == 1 or w.shape[0] > 1):
            w = w[:, 0]
        if g.shape != w.shape or not np.isfinite(g).all():
            return False
        lim = rel * max(mag, max(abs(v) for v in w.ravel())) + mp.mpf(10) ** -290
        return all(abs(M(float(a)) - b) <= lim for a, b in zip(g.ravel(), w.ravel()))
    if g.ndim != 0 or not np.isfinite(g):
        return False
    return abs(M(float(g)) - want) <= rel * max(mag, abs(want))


def loglik(name, p, data, known, t):
    if name == "linear_regression":
        b = col(t["mu"])
        return mp.fsum(m * ref.normal_var(M(r[p]), (b.T * col(r[:p]))[0], M(t["s2"])) for r, m in data)
    cov = {MV[0]: lambda: mm(known["cov"]), MV[1]: lambda: ref.inv(mm(known["precision"]))}.get(name, lambda: mm(t["S"]))()
    mu = col(known["mu"]) if name == MV[2] else col(t["mu"])
    P, ld = ref.inv(cov), ref.logdet(cov)
    return mp.fsum(m * (-ref.quad(P, col(r) - mu) / 2 - ld / 2 - p * mp.log(2 * mp.pi) / 2) for r, m in data)


def logprior(name, f, t):
    g = lambda v: mm(np.asarray(v, float).tolist())
    c = lambda v: col(np.asarray(v, float).tolist())
    s = lambda v: M(float(v))
    if name in MV[:2]:
        return ref.mvn(col(t["mu"]), c(f["mu"]), g(f["cov"]))
    if name == MV[2]:
        return ref.invwishart(mm(t["S"]), s(f["nu"]), g(f["psi"]))
    if name == MV[3]:
        return ref.niw(col(t["mu"]), mm(t["S"]), c(f["mu"]), s(f["kappa"]), s(f["nu"]), g(f["psi"]))
    return ref.nig_nd(col(t["mu"]), M(t["s2"]), c(f["mu"]), g(f["delta_inverse"]), s(f["alpha"]), s(f["beta"]))
