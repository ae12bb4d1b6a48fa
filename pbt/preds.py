"""Table of the predictive functions with their likelihoods.

logmarg(dist fields, args, x, t): log of the integral of likelihood times parameter density, obtained as
density(t) * likelihood(x; t) / density of the exact conjugate update at t (any t gives the same value).
"""
import mpmath as mp
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.models import BETA, flag, IG, NORMAL, beta_lp, gamma_lp, ig_lp
from pbt.ref import M


class Pred:
    def __init__(self, name, dist, fields, args, x, ll, lp, post, theta, kind, support=None, consts=None, key=None, vec=None):
        """kind 'pmf'/'pdf'; x(args) strategy of an outcome; support(x, args) -> bool"""
        self.name, self.dist, self.fields, self.args, self.x, self.ll, self.lp = name, dist, fields, args, x, ll, lp
        self.post, self.theta, self.kind, self.support, self.consts = post, theta, kind, support, consts or {}
        self.key = key or "%s-%s" % (name, dist)
        self.vec = vec or {}

    def logmarg(self, f, a, x, t):
        if self.support and not self.support(x, a):
            return -mp.inf
        return self.lp(f, t) + self.ll(M(x), a, t) - self.lp(self.post(f, a, M(x)), t)


PREDS = []


def add(*a, **k):
    PREDS.append(Pred(*a, **k))


def ab(f, da, db):
    return {"alpha": M(f["alpha"]) + da, "beta": M(f["beta"]) + db}


P01 = gen.prob(1e-3)
CNT = gen.integer(-1, 10**5)
ABV = dict(alpha=(0.1, 20), beta=(0.1, 20))


def isint(v):
    return M(v) == mp.floor(M(v))


add(
    "binomial_beta_predictive", "Beta", BETA, dict(n=gen.integer(1, 10**5)),
    lambda a: st.one_of(st.integers(0, a["n"]), st.sampled_from([0, a["n"], -1, a["n"] + 1])),
    lambda x, a, t: ref.binom(x, M(a["n"]), t), beta_lp, lambda f, a, x: ab(f, x, a["n"] - x), P01, "pmf",
    lambda x, a: 0 <= x <= a["n"], vec=dict(ABV, n=(1, 30, True)),
)
add(
    "bernoulli_beta_predictive", "Beta", BETA, {}, lambda a: st.integers(-1, 2),
    lambda x, a, t: mp.log(t) if x == 1 else mp.log(1 - t), beta_lp, lambda f, a, x: ab(f, x, 1 - x), P01, "pmf",
    lambda x, a: x in (0, 1), vec=dict(ABV),
)
add(
    "negative_binomial_beta_predictive", "Beta", BETA, dict(r=gen.integer(1, 500)), lambda a: CNT,
    lambda x, a, t: ref.nbinom(x, M(a["r"]), t), beta_lp, lambda f, a, x: ab(f, a["r"], x), P01, "pmf",
    lambda x, a: x >= 0, vec=dict(ABV, r=(1, 9, True)),
)
for one in (True, False):
    add(
        "geometric_beta_predictive", "Beta", BETA, {}, lambda a: CNT,
        lambda x, a, t, one=one: ref.geom(x, t, one), beta_lp,
        lambda f, a, x, one=one: ab(f, 1, x - (1 if one else 0)), P01, "pmf",
        lambda x, a, one=one: x >= (1 if one else 0), {"one_start": one}, "geometric_beta_predictive-%d" % one, vec=dict(ABV),
    )
add(
    "poisson_gamma_predictive", "Gamma", BETA, dict(n=st.one_of(st.just(1), gen.pos(1e-2, 1e3))), lambda a: CNT,
    lambda x, a, t: ref.poisson(x, M(a["n"]) * t), gamma_lp, lambda f, a, x: ab(f, x, M(a["n"])), gen.pos(1e-2, 100), "pmf",
    lambda x, a: x >= 0, vec=dict(ABV, n=(1, 9, True)),
)
XP = st.one_of(gen.pos(1e-4, 1e4), st.sampled_from([-1.0, -0.001]))
add(
    "exponential_gamma_predictive", "Gamma", BETA, {}, lambda a: XP,
    lambda x, a, t: ref.expon(x, t), gamma_lp, lambda f, a, x: ab(f, 1, x), gen.pos(1e-2, 100), "pdf",
    lambda x, a: x >= 0, vec=dict(ABV),
)
add(
    "gamma_known_shape_predictive", "Gamma", BETA, dict(alpha=gen.pos(1e-2, 1e3)), lambda a: XP,
    lambda x, a, t: ref.gamma(x, M(a["alpha"]), t), gamma_lp, lambda f, a, x: ab(f, M(a["alpha"]), x), gen.pos(1e-2, 100),
    "pdf", lambda x, a: x >= 0, vec={**ABV, "known.alpha": (0.2, 9)},
)
XR = gen.real(200)


def norm_post(f, var, x):
    w0, w = 1 / M(f["sigma"]) ** 2, 1 / var
    return {"mu": (M(f["mu"]) * w0 + x * w) / (w0 + w), "sigma": 1 / mp.sqrt(w0 + w)}


def norm_lp(f, t):
    return ref.normal(t, M(f["mu"]), M(f["sigma"]))


add(
    "normal_known_variance_predictive", "Normal", NORMAL, dict(var=gen.pos(1e-3, 1e4)), lambda a: XR,
    lambda x, a, t: ref.normal_var(x, t, M(a["var"])), norm_lp, lambda f, a, x: norm_post(f, M(a["var"]), x), gen.real(100), "pdf",
    vec=dict(mu=(-3, 3), sigma=(0.2, 5), var=(0.2, 9)),
)
add(
    "normal_known_precision_predictive", "Normal", NORMAL, dict(precision=gen.pos(1e-3, 1e4)), lambda a: XR,
    lambda x, a, t: ref.normal_var(x, t, 1 / M(a["precision"])), norm_lp,
    lambda f, a, x: norm_post(f, 1 / M(a["precision"]), x), gen.real(100), "pdf",
    vec=dict(mu=(-3, 3), sigma=(0.2, 5), precision=(0.2, 9)),
)
add(
    "normal_known_mean_predictive", "InverseGamma", IG, dict(mu=gen.real(100)), lambda a: XR,
    lambda x, a, t: ref.normal_var(x, M(a["mu"]), t), ig_lp,
    lambda f, a, x: ab(f, M("0.5"), (x - M(a["mu"])) ** 2 / 2), gen.pos(1e-2, 100), "pdf",
    vec=dict(ABV, mu=(-3, 3)),
)
add(
    "normal_known_mean_predictive", "ScaledInverseChiSquared", dict(nu=gen.pos(1e-2, 1e4), sigma2=gen.pos(1e-2, 1e4)),
    dict(mu=gen.real(100)), lambda a: XR,
    lambda x, a, t: ref.normal_var(x, M(a["mu"]), t), lambda f, t: ref.sics(t, M(f["nu"]), M(f["sigma2"])),
    lambda f, a, x: {"nu": M(f["nu"]) + 1, "sigma2": (M(f["nu"]) * M(f["sigma2"]) + (x - M(a["mu"])) ** 2) / (M(f["nu"]) + 1)},
    gen.pos(1e-2, 100), "pdf", vec=dict(nu=(0.3, 20), sigma2=(0.3, 20), mu=(-3, 3)),
)


def nig_post(nu):
    def f(d, a, x):
        m, v = M(d["mu"]), M(d[nu])
        return {
            "mu": (v * m + x) / (v + 1), nu: v + 1, "alpha": M(d["alpha"]) + M("0.5"),
            "beta": M(d["beta"]) + v * (x - m) ** 2 / (2 * (v + 1)),
        }

    return f


for nm, dist, nu in (
    ("normal_predictive", "NormalInverseGamma", "nu"),
    ("normal_predictive", "NormalGamma", "lam"),
    ("normal_normal_inverse_gamma_predictive", "NormalInverseGamma", "nu"),
):
    add(
        nm, dist, {"mu": gen.real(100), nu: gen.pos(1e-2, 1e3), "alpha": gen.pos(1e-2, 1e3), "beta": gen.pos(1e-2, 1e4)}, {},
        lambda a: XR, lambda x, a, t: ref.normal_var(x, t[0], t[1]),
        (lambda f, t: ref.nig(t[0], t[1], M(f["mu"]), M(f["nu"]), M(f["alpha"]), M(f["beta"])))
        if nu == "nu"
        else (lambda f, t: ref.ng(t[0], 1 / t[1], M(f["mu"]), M(f["lam"]), M(f["alpha"]), M(f["beta"]))),
        nig_post(nu), st.tuples(gen.real(100), gen.pos(1e-2, 100)).map(list), "pdf",
        vec={"mu": (-3, 3), nu: (0.1, 5), "alpha": (0.5, 9), "beta": (0.5, 9)},
    )


def make_dist(p, fields, kind="raw"):
    import conjugate.distributions as D

    return getattr(D, p.dist)(**{k: gen.present(v, kind, k) for k, v in fields.items()})


def call(p, dist_obj, args, kind="raw"):
    import conjugate.models as F

    return getattr(F, p.name)(distribution=dist_obj, **{k: gen.present(v, kind, "a." + k) for k, v in args.items()}, **{k: flag(v, kind) if isinstance(v, bool) else v for k, v in p.consts.items()})
