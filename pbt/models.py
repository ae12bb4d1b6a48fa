"""Table of the scalar likelihood/prior models: data, sufficient statistics, likelihood, exact update.

Each entry knows
  item(known)      strategy for one raw observation (JSON)
  stats            raw data -> keyword arguments of the model function (floats/ints)
  loglik           log likelihood of the raw data at theta (mpmath, written from the definition)
  logprior         log density of a family member at theta (mpmath, documented parameterisation)
  update           {field: (exact value, magnitude of the terms it is a sum of)}
"""
from dataclasses import dataclass, field
from typing import Any, Callable

import mpmath as mp
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.ref import M, mpf


def S(f):
    """exact weighted sum over [[item, mult], ...]"""

    def total(items):
        return mp.fsum(M(m) * f(x) for x, m in items)

    return total


def num(v):
    """mpf -> nearest number (int when integral and small enough to be exact)"""
    if v == int(v) and abs(v) < 2**53:
        return int(v)
    return float(v)


def count(items):
    return sum(m for _, m in items)


@dataclass
class Model:
    name: str
    prior: str
    fields: dict
    known: dict
    item: Callable
    stats: Callable
    loglik: Callable
    logprior: Callable
    update: Callable
    theta: Any
    theta_of: Callable = None  # (case, t) -> theta in mp
    prop: str = "C01"
    post: str = None
    consts: dict = field(default_factory=dict)
    max_mult: int = 10**6
    fn: str = None
    vec: dict = None  # argument -> (lo, hi, integer?) such that every combination is valid
    key: str = None

    def __post_init__(self):
        self.post = self.post or self.prior
        self.fn = self.fn or self.name
        self.key = self.key or "%s-%s" % (self.name, self.prior)


MODELS = []


def add(**kw):
    m = Model(**kw)
    MODELS.append(m)
    return m


def known_st(m):
    return st.fixed_dictionaries(m.known)


def prior_st(m):
    return st.fixed_dictionaries(m.fields)


# (1e-6 and 1e6 first: generation favours the first alternatives)
TEN = st.one_of(st.sampled_from([10.0**e for e in (-6, 6, -3, 4, -9, 9, 0, -1, 1, -2, 2, 3, -4, -5, 5, -7, 7, -8, 8)]),
                st.floats(-9, 9).map(lambda e: 10.0**e))


def mostly(near, far, k=3):
    """`far` in about k of k + 1 cases (a plain union would weigh every alternative inside `near` as much as `far`)"""
    return st.integers(0, k).flatmap(lambda i: far if i else near)


def far_prior_st(m):
    """parameters anywhere between 1e-9 and 1e9: nearly flat and nearly certain priors"""
    return st.fixed_dictionaries({f: mostly(s, gen.real(1e5), 1) if f == "mu" else mostly(s, TEN) for f, s in m.fields.items()})


def case_st(m, min_size=0, max_size=5, nthetas=2, extra=None):
    @st.composite
    def build(draw):
        known = draw(known_st(m))
        prior = draw(prior_st(m))
        data = draw(gen.items(m.item(known), min_size, max_size, m.max_mult))
        c = {"prior": prior, "known": known, "data": data}
        c["theta"] = [draw(m.theta) for _ in range(nthetas)]
        c["kind"] = draw(gen.KIND)
        for k, s in (extra or {}).items():
            c[k] = draw(s)
        return c

    return build()


def make_prior(m, prior, kind="raw", cls=None):
    import conjugate.distributions as D

    return getattr(D, cls or m.prior)(**{k: gen.present(v, kind, k) if not isinstance(v, list) else v for k, v in prior.items()})


def flag(v, kind):
    """a truth value as Python, numpy or plain number"""
    import numpy as np

    how = int(kind[4:]) % 3 if kind.startswith("mix:") else 0
    return [v, np.bool_(v), int(v)][how]


def call(m, prior_obj, known, stats, kind="raw"):
    import conjugate.models as F

    kw = {}
    for k, v in list(known.items()) + list(stats.items()):
        if isinstance(v, (bool,)) or k.startswith("_"):
            if not k.startswith("_"):
                kw[k] = flag(v, kind)
        elif isinstance(v, list):
            kw[k] = v
        else:
            kw[k] = gen.present(v, kind, "a." + k)
    return getattr(F, m.fn)(prior=prior_obj, **kw)


BETA = dict(alpha=gen.pos(), beta=gen.pos())
P01 = gen.prob()
POS = gen.pos(1e-2, 100.0)


def beta_lp(p, t):
    return ref.beta(t, M(p["alpha"]), M(p["beta"]))


def gamma_lp(p, t):
    return ref.gamma(t, M(p["alpha"]), M(p["beta"]))


def ig_lp(p, t):
    return ref.invgamma(t, M(p["alpha"]), M(p["beta"]))


def up(**kw):
    """field -> sum of terms, with magnitude"""
    out = {}
    for k, terms in kw.items():
        t = [M(x) for x in terms]
        out[k] = (mp.fsum(t), mp.fsum(abs(x) for x in t))
    return out


# ------------------------------------------------------------------ discrete
def pair(n_hi=1000):
    return st.one_of(gen.integer(1, 6), gen.integer(1, n_hi)).flatmap(
        lambda n: st.one_of(st.integers(0, n), st.sampled_from([0, n])).map(lambda x: [n, x])
    )


def ab(*names):
    return lambda p, k, s: up(alpha=names[0], beta=names[1])


add(
    name="binomial_beta", prior="Beta", fields=BETA, known={},
    item=lambda k: pair(),
    stats=lambda d, k: dict(n=num(S(lambda v: v[0])(d)), x=num(S(lambda v: v[1])(d))),
    loglik=lambda d, k, t: S(lambda v: v[1] * mp.log(t) + (v[0] - v[1]) * mp.log(1 - t))(d),
    logprior=beta_lp, theta=P01,
    update=lambda p, k, s: up(alpha=[p["alpha"], s["x"]], beta=[p["beta"], s["n"], -s["x"]]),
    vec=dict(alpha=(0.1, 20), beta=(0.1, 20), n=(20, 60, True), x=(0, 20, True)),
)
add(
    name="bernoulli_beta", prior="Beta", fields=BETA, known={},
    item=lambda k: st.integers(0, 1), max_mult=1,
    stats=lambda d, k: dict(x=d[0][0]),
    loglik=lambda d, k, t: mp.log(t) if d[0][0] else mp.log(1 - t),
    logprior=beta_lp, theta=P01,
    update=lambda p, k, s: up(alpha=[p["alpha"], s["x"]], beta=[p["beta"], 1, -s["x"]]),
    vec=dict(alpha=(0.1, 20), beta=(0.1, 20), x=(0, 1, True)),
)
add(
    name="negative_binomial_beta", prior="Beta", fields=BETA, known=dict(r=st.one_of(gen.integer(1, 200), gen.pos(0.05, 200))),
    item=lambda k: gen.integer(0, 10**5),
    stats=lambda d, k: dict(n=count(d), x=num(S(lambda v: v)(d))),
    # number of failures v before the r-th success
    loglik=lambda d, k, t: S(lambda v: k["r"] * mp.log(t) + v * mp.log(1 - t))(d),
    logprior=beta_lp, theta=P01,
    update=lambda p, k, s: up(alpha=[p["alpha"], M(k["r"]) * s["n"]], beta=[p["beta"], s["x"]]),
    vec=dict(alpha=(0.1, 20), beta=(0.1, 20), r=(1, 9, True), n=(1, 20, True), x=(0, 40, True)),
)
for one in (True, False):
    add(
        name="geometric_beta", prior="Beta", fields=BETA, known={}, key="geometric_beta-%d" % one,
        consts={"one_start": one},
        item=lambda k, one=one: gen.integer(1 if one else 0, 10**5),
        stats=lambda d, k: dict(x_total=num(S(lambda v: v)(d)), n=count(d)),
        loglik=lambda d, k, t, one=one: S(lambda v: mp.log(t) + (v - (1 if one else 0)) * mp.log(1 - t))(d),
        logprior=beta_lp, theta=P01,
        update=lambda p, k, s, one=one: up(
            alpha=[p["alpha"], s["n"]], beta=[p["beta"], s["x_total"]] + ([-s["n"]] if one else [])
        ),
        vec=dict(alpha=(0.1, 20), beta=(0.1, 20), x_total=(20, 60, True), n=(1, 20, True)),
    )
add(
    name="poisson_gamma", prior="Gamma", fields=BETA, known={},
    item=lambda k: gen.integer(0, 10**5),
    stats=lambda d, k: dict(x_total=num(S(lambda v: v)(d)), n=count(d)),
    loglik=lambda d, k, t: S(lambda v: v * mp.log(t) - t)(d),
    logprior=gamma_lp, theta=gen.pos(1e-3, 1e3),
    update=lambda p, k, s: up(alpha=[p["alpha"], s["x_total"]], beta=[p["beta"], s["n"]]),
    vec=dict(alpha=(0.1, 20), beta=(0.1, 20), x_total=(0, 60, True), n=(1, 20, True)),
)
# counts over stretches of time (or area) of any length: n is the total exposure
add(
    name="poisson_gamma", prior="Gamma", fields=BETA, known={}, key="poisson_gamma-exposure",
    item=lambda k: st.tuples(gen.integer(0, 10**5), gen.pos(1e-3, 1e3)).map(list),
    stats=lambda d, k: dict(x_total=num(S(lambda v: v[0])(d)), n=num(S(lambda v: M(v[1]))(d))),
    loglik=lambda d, k, t: S(lambda v: v[0] * mp.log(t * M(v[1])) - t * M(v[1]))(d),
    logprior=gamma_lp, theta=gen.pos(1e-3, 1e3),
    update=lambda p, k, s: up(alpha=[p["alpha"], s["x_total"]], beta=[p["beta"], s["n"]]),
    vec=dict(alpha=(0.1, 20), beta=(0.1, 20), x_total=(0, 60, True), n=(0.1, 20)),
)
# ------------------------------------------------------------------ continuous
add(
    name="exponential_gamma", prior="Gamma", fields=BETA, known={}, prop="C02",
    item=lambda k: gen.pos(1e-4, 1e4),
    stats=lambda d, k: dict(x_total=num(S(lambda v: M(v))(d)), n=count(d)),
    loglik=lambda d, k, t: S(lambda v: ref.expon(M(v), t))(d),
    logprior=gamma_lp, theta=gen.pos(1e-3, 1e3),
    update=lambda p, k, s: up(alpha=[p["alpha"], s["n"]], beta=[p["beta"], s["x_total"]]),
    vec=dict(alpha=(0.1, 20), beta=(0.1, 20), x_total=(0.1, 60), n=(1, 20, True)),
)
add(
    name="gamma_known_shape", prior="Gamma", fields=BETA, known=dict(alpha=POS), prop="C02",
    item=lambda k: gen.pos(1e-4, 1e4),
    stats=lambda d, k: dict(x_total=num(S(lambda v: M(v))(d)), n=count(d)),
    loglik=lambda d, k, t: S(lambda v: ref.gamma(M(v), M(k["alpha"]), t))(d),
    logprior=gamma_lp, theta=gen.pos(1e-3, 1e3),
    update=lambda p, k, s: up(alpha=[p["alpha"], M(s["n"]) * M(k["alpha"])], beta=[p["beta"], s["x_total"]]),
    vec={"alpha": (0.1, 20), "beta": (0.1, 20), "x_total": (0.1, 60), "n": (1, 20, True), "known.alpha": (0.2, 9)},
)
add(
    name="inverse_gamma_known_rate", prior="Gamma", fields=BETA, known=dict(alpha=POS), prop="C02",
    item=lambda k: gen.pos(1e-4, 1e4),
    stats=lambda d, k: dict(reciprocal_x_total=num(S(lambda v: 1 / M(v))(d)), n=count(d)),
    loglik=lambda d, k, t: S(lambda v: ref.invgamma(M(v), M(k["alpha"]), t))(d),
    logprior=gamma_lp, theta=gen.pos(1e-3, 1e3),
    update=lambda p, k, s: up(alpha=[p["alpha"], M(s["n"]) * M(k["alpha"])], beta=[p["beta"], s["reciprocal_x_total"]]),
    vec={"alpha": (0.1, 20), "beta": (0.1, 20), "reciprocal_x_total": (0.1, 60), "n": (1, 20, True), "known.alpha": (0.2, 9)},
)


def _nkv(prec_of):
    def f(p, k, s):
        w0 = 1 / M(p["sigma"]) ** 2
        w = prec_of(k)
        prec = w0 + M(s["n"]) * w
        t1, t2 = M(p["mu"]) * w0, M(s["x_total"]) * w
        return {
            "mu": ((t1 + t2) / prec, (abs(t1) + abs(t2)) / prec),
            "sigma": (prec ** mpf("-0.5"), prec ** mpf("-0.5")),
        }

    return f


NORMAL = dict(mu=gen.real(100), sigma=gen.pos(1e-2, 1e3))
XR = gen.real(100)
for nm, kn, var in (
    ("normal_known_variance", "var", lambda k: M(k["var"])),
    ("normal_known_precision", "precision", lambda k: 1 / M(k["precision"])),
):
    add(
        name=nm, prior="Normal", fields=NORMAL, known={kn: gen.pos(1e-3, 1e4)}, prop="C02",
        item=lambda k: XR,
        stats=lambda d, k: dict(x_total=num(S(lambda v: M(v))(d)), n=count(d)),
        loglik=lambda d, k, t, var=var: S(lambda v: ref.normal_var(M(v), t, var(k)))(d),
        logprior=lambda p, t: ref.normal(t, M(p["mu"]), M(p["sigma"])),
        theta=gen.real(100),
        update=_nkv(lambda k, var=var: 1 / var(k)),
        vec=dict([("mu", (-3, 3)), ("sigma", (0.2, 5)), ("x_total", (-20, 20)), ("n", (1, 20, True)), (kn, (0.2, 9))]),
    )


def ss(d):
    return num(S(lambda v: M(v) ** 2)(d))


def _nkm_beta(p, k, s):
    t = [M(s["x2_total"]) / 2, -M(k["mu"]) * M(s["x_total"]), M(s["n"]) * M(k["mu"]) ** 2 / 2]
    return t


def _nkm_ig(p, k, s):
    return up(alpha=[p["alpha"], M(s["n"]) / 2], beta=[p["beta"]] + _nkm_beta(p, k, s))


def _nkm_s(p, k, s):
    nu = M(p["nu"]) + M(s["n"])
    t = [M(p["nu"]) * M(p["sigma2"])] + [2 * x for x in _nkm_beta(p, k, s)]
    return {
        "nu": (nu, nu),
        "sigma2": (mp.fsum(t) / nu, mp.fsum(abs(x) for x in t) / nu),
    }


IG = dict(alpha=gen.pos(1e-2, 1e4), beta=gen.pos(1e-2, 1e4))
for pr, fields, lp, upd in (
    ("InverseGamma", IG, ig_lp, _nkm_ig),
    (
        "ScaledInverseChiSquared",
        dict(nu=gen.pos(1e-2, 1e4), sigma2=gen.pos(1e-2, 1e4)),
        lambda p, t: ref.sics(t, M(p["nu"]), M(p["sigma2"])),
        _nkm_s,
    ),
):
    add(
        name="normal_known_mean", prior=pr, fields=fields, known=dict(mu=gen.real(100)), prop="C02",
        item=lambda k: st.one_of(XR, st.just(k["mu"])),
        stats=lambda d, k: dict(x_total=num(S(lambda v: M(v))(d)), x2_total=ss(d), n=count(d)),
        loglik=lambda d, k, t: S(lambda v: ref.normal_var(M(v), M(k["mu"]), t))(d),
        logprior=lp, theta=gen.pos(1e-3, 1e4), update=upd,
        vec={**{f: (0.3, 20) for f in fields}, "mu": (-2, 2), "x_total": (-5, 5), "x2_total": (60, 100), "n": (1, 20, True)},
    )


def _nrm(nu):
    def f(p, k, s):
        x = {a: b for a, b in s.items()}
        xt = M(x.get("x_total", x.get("ln_x_total")))
        x2 = M(x.get("x2_total", x.get("ln_x2_total")))
        n, m0, v0 = M(s["n"]), M(p["mu"]), M(p[nu])
        v1 = v0 + n
        m1 = (v0 * m0 + xt) / v1
        # mu**2 * nu inherits the rounding of mu_post: magnitude covers the cancelling squares
        magm = (v0 * abs(m0) + abs(xt)) / v1
        t = [M(p["beta"]), m0**2 * v0 / 2, x2 / 2, -(m1**2) * v1 / 2]
        mag = M(p["beta"]) + m0**2 * v0 / 2 + abs(x2) / 2 + magm**2 * v1 / 2
        return {
            "mu": (m1, magm),
            nu: (v1, v1),
            "alpha": (M(p["alpha"]) + n / 2, M(p["alpha"]) + n / 2),
            "beta": (mp.fsum(t), mag),
        }

    return f


def _ni(name, fnname, prior, nu, logx):
    pre = "ln_" if logx else ""
    tr = (lambda v: mp.log(M(v))) if logx else (lambda v: M(v))
    add(
        name=name, prior=prior, prop="C02",
        fields={"mu": gen.real(100), nu: gen.pos(1e-2, 1e3), "alpha": gen.pos(1e-2, 1e3), "beta": gen.pos(1e-2, 1e4)},
        known={}, item=(lambda k: gen.pos(1e-4, 1e4)) if logx else (lambda k: XR),
        stats=lambda d, k: {
            pre + "x_total": float(S(tr)(d)), pre + "x2_total": float(S(lambda v: tr(v) ** 2)(d)), "n": count(d)
        },
        # theta = (mean, variance)
        loglik=lambda d, k, t: S(
            (lambda v: ref.normal_var(mp.log(M(v)), t[0], t[1]) - mp.log(M(v)))
            if logx
            else (lambda v: ref.normal_var(M(v), t[0], t[1]))
        )(d),
        # joint density of (mean, variance); for a normal-gamma by change of variables from the precision
        logprior=(lambda p, t: ref.nig(t[0], t[1], M(p["mu"]), M(p["nu"]), M(p["alpha"]), M(p["beta"])))
        if prior == "NormalInverseGamma"
        else (
            lambda p, t: ref.ng(t[0], 1 / t[1], M(p["mu"]), M(p["lam"]), M(p["alpha"]), M(p["beta"])) - 2 * mp.log(t[1])
        ),
        theta=st.tuples(gen.real(100), gen.pos(1e-2, 1e4)).map(list),
        update=_nrm(nu),
        vec={"mu": (-2, 2), nu: (0.1, 5), "alpha": (0.5, 9), "beta": (0.5, 9), pre + "x_total": (-5, 5),
             pre + "x2_total": (60, 100), "n": (1, 20, True)},
    )


_ni("normal", "normal", "NormalInverseGamma", "nu", False)
_ni("normal", "normal", "NormalGamma", "lam", False)
_ni("normal_normal_inverse_gamma", None, "NormalInverseGamma", "nu", False)
_ni("log_normal", None, "NormalInverseGamma", "nu", True)
_ni("log_normal", None, "NormalGamma", "lam", True)

add(
    name="uniform_pareto", prior="Pareto", fields=dict(x_m=gen.pos(1e-2, 1e3), alpha=gen.pos(1e-2, 1e3)), known={}, prop="C02",
    item=lambda k: gen.pos(1e-3, 1e4),
    stats=lambda d, k: dict(x_max=max(v for v, _ in d), n=count(d)),
    loglik=lambda d, k, t: S(lambda v: -mp.log(t) if M(v) <= t else -mp.inf)(d),
    logprior=lambda p, t: ref.pareto(t, M(p["x_m"]), M(p["alpha"])),
    theta=st.one_of(st.just(1.0), st.floats(1.0, 50.0)),
    theta_of=lambda c, t: M(t) * max([M(c["prior"]["x_m"])] + [M(v) for v, _ in c["data"]]),
    update=lambda p, k, s: {
        "alpha": (M(p["alpha"]) + M(s["n"]),) * 2,
        "x_m": (max(M(p["x_m"]), M(s["x_max"])),) * 2,
    },
    vec=dict(x_m=(0.2, 5), alpha=(0.2, 5), x_max=(0.2, 5), n=(1, 20, True)),
)
add(
    name="pareto_gamma", prior="Gamma", fields=BETA, known=dict(x_m=gen.pos(1e-6, 1e6)), prop="C02",
    item=lambda k: st.one_of(st.just(1.0), st.floats(1.0, 1e3), st.floats(1.0, 3.0)).map(lambda f: f * k["x_m"]),
    stats=lambda d, k: dict(ln_x_total=float(S(lambda v: mp.log(M(v)))(d)), n=count(d)),
    loglik=lambda d, k, t: S(lambda v: mp.log(t) + t * mp.log(M(k["x_m"])) - (t + 1) * mp.log(M(v)))(d),
    logprior=gamma_lp, theta=gen.pos(1e-3, 1e3),
    update=lambda p, k, s: up(
        alpha=[p["alpha"], s["n"]], beta=[p["beta"], s["ln_x_total"], -M(s["n"]) * mp.log(M(k["x_m"]))]
    ),
    vec=dict(alpha=(0.1, 20), beta=(0.1, 20), n=(1, 10, True), ln_x_total=(10, 50), x_m=(0.1, 2)),
)
add(
    name="weibull_inverse_gamma_known_shape", prior="InverseGamma", fields=IG, known=dict(_beta=gen.pos(0.05, 20)), prop="C02",
    item=lambda k: gen.pos(1e-3, 1e3),
    stats=lambda d, k: dict(n=count(d), x_beta_total=num(S(lambda v: M(v) ** M(k["_beta"]))(d))),
    loglik=lambda d, k, t: S(lambda v: ref.weibull(M(v), M(k["_beta"]), t))(d),
    logprior=ig_lp, theta=gen.pos(1e-2, 1e3),
    update=lambda p, k, s: up(alpha=[p["alpha"], s["n"]], beta=[p["beta"], s["x_beta_total"]]),
    vec=dict(alpha=(0.1, 20), beta=(0.1, 20), n=(1, 20, True), x_beta_total=(0.1, 60)),
)

BY_KEY = {m.key: m for m in MODELS}


def fields_of(obj, m):
    return {f: getattr(obj, f) for f in m.fields}
