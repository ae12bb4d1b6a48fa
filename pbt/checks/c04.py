"""C04: unnormalised families track prior times likelihood."""
import math

import mpmath as mp
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import expect, sub, sut
from pbt.models import S, TEN, count, mostly
from pbt.ref import M, close


def fl(v):
    return float(v)


def prod(data, f=lambda v: v):
    return fl(mp.exp(mp.fsum(m * mp.log(f(M(x))) for x, m in data))) if any(m != 1 for _, m in data) else fl(
        mp.fprod(f(M(x)) for x, m in data)
    )


CNT = st.one_of(gen.num(0.1, 1000), gen.num(0.1, 1000), gen.pos(1e-4, 1e6))
SHAPE = st.one_of(gen.pos(1e-2, 100), gen.pos(1e-6, 1e4))
DATUM = st.one_of(gen.pos(0.05, 20), gen.pos(0.05, 20), gen.pos(1e-3, 1e3))
MU = st.floats(-3.2, 6.4)


class Fam:
    def __init__(self, fn, prior, fields, known, item, stats, ll, curve, theta, update, mhi=20):
        self.__dict__.update(locals())


FAMS = [
    Fam(
        "gamma", "GammaProportional", dict(p=gen.pos(1e-3, 1e3), q=CNT, r=CNT, s=CNT), {}, lambda k: DATUM,
        lambda d, k: dict(x_total=fl(S(lambda v: M(v))(d)), x_prod=prod(d), n=count(d)),
        lambda d, k, t: S(lambda v: ref.gamma(M(v), M(t[0]), M(t[1])))(d),
        lambda o, k, t: o.approx_log_likelihood(t[0], t[1]),
        st.tuples(SHAPE, SHAPE).map(list),
        lambda p, s: dict(p=M(p["p"]) * M(s["x_prod"]), q=M(p["q"]) + M(s["x_total"]), r=M(p["r"]) + s["n"], s=M(p["s"]) + s["n"]),
    ),
    Fam(
        "gamma_known_rate", "GammaKnownRateProportional", dict(a=gen.pos(1e-3, 1e3), b=CNT, c=CNT),
        dict(beta=SHAPE), lambda k: DATUM,
        lambda d, k: dict(x_prod=prod(d), n=count(d)),
        lambda d, k, t: S(lambda v: ref.gamma(M(v), M(t), M(k["beta"])))(d),
        lambda o, k, t: o.approx_log_likelihood(t, k["beta"]),
        SHAPE,
        lambda p, s: dict(a=M(p["a"]) * M(s["x_prod"]), b=M(p["b"]) + s["n"], c=M(p["c"]) + s["n"]),
    ),
    Fam(
        "beta", "BetaProportional", dict(p=gen.pos(1e-3, 1), q=gen.pos(1e-3, 1), k=CNT), {}, lambda k: st.floats(0.01, 0.99),
        lambda d, k: dict(x_prod=prod(d), one_minus_x_prod=prod(d, lambda v: 1 - v), n=count(d)),
        lambda d, k, t: S(lambda v: ref.beta(M(v), M(t[0]), M(t[1])))(d),
        lambda o, k, t: o.approx_log_likelihood(t[0], t[1]),
        st.tuples(SHAPE, SHAPE).map(list),
        lambda p, s: dict(p=M(p["p"]) * M(s["x_prod"]), q=M(p["q"]) * M(s["one_minus_x_prod"]), k=M(p["k"]) + s["n"]),
    ),
    Fam(
        "von_mises_known_direction", "VonMisesKnownDirectionProportional", dict(c=CNT, r=gen.num(0, 100)), dict(_mu=MU),
        lambda k: MU,
        lambda d, k: dict(centered_cos_total=fl(S(lambda v: mp.cos(M(v) - M(k["_mu"])))(d)), n=count(d)),
        lambda d, k, t: S(lambda v: ref.vonmises(M(v), M(k["_mu"]), M(t)))(d),
        lambda o, k, t: o.approx_log_likelihood(t),
        st.one_of(gen.pos(1e-2, 300), gen.pos(1e-6, 700)),
        lambda p, s: dict(c=M(p["c"]) + s["n"], r=M(p["r"]) + M(s["centered_cos_total"])), mhi=10**5,
    ),
    Fam(
        "von_mises_known_concentration", "VonMisesKnownConcentration", dict(a=st.one_of(gen.pos(1e-3, 300), gen.pos(1e-6, 300)), b=MU),
        dict(kappa=st.one_of(gen.pos(1e-2, 50), gen.pos(1e-6, 500))), lambda k: MU,
        lambda d, k: dict(
            cos_total=fl(S(lambda v: mp.cos(M(v)))(d)), sin_total=fl(S(lambda v: mp.sin(M(v)))(d)), n=count(d)
        ),
        lambda d, k, t: S(lambda v: ref.vonmises(M(v), M(t), M(k["kappa"])))(d),
        lambda o, k, t: o.log_likelihood(t),
        MU, None, mhi=300,
    ),
]


def case(f):
    @st.composite
    def build(draw):
        known = draw(st.fixed_dictionaries(f.known))
        return {
            "prior": draw(st.fixed_dictionaries(f.fields)), "known": known,
            "data": draw(gen.items(f.item(known), 0, 5, f.mhi)), "theta": [draw(f.theta), draw(f.theta)],
            "kind": draw(gen.KIND),
            "asarray": draw(st.booleans()),
        }

    return build()


def stable(v, o, t):
    """(value of the von Mises curve, whether the default Bessel function overflowed): with one that does not in that case"""
    if float(o.a) > 700 and float(v) == -math.inf:
        return sut(o.log_likelihood, M(t), cos=mp.cos, ln=mp.log, i0=lambda x: mp.besseli(0, M(float(x)))), True
    return float(v), False


def mk(f):
    def check(c, rec):
        import conjugate.distributions as D
        import conjugate.models as F

        d, k, p = c["data"], c["known"], c["prior"]
        s = f.stats(d, k)
        prior = sut(getattr(D, f.prior), **{n: gen.present(v, c["kind"], n) for n, v in p.items()})
        kw = {n: gen.present(v, c["kind"], "a." + n) for n, v in list(s.items()) + [x for x in k.items() if x[0][0] != "_"]}
        post = sut(getattr(F, f.fn), prior=prior, **kw)
        expect(type(post).__name__ == f.prior, "%s returned %s", f.fn, type(post).__name__)
        n = count(d)
        if f.update:
            for name, w in f.update(p, s).items():
                g = getattr(post, name)
                expect(close(g, w, sum(abs(M(v)) for v in list(p.values()) + list(s.values()) if name in "rqk") or None, 1e-12),
                       "%s: %s = %r, should be %s", f.fn, name, g, mp.nstr(w, 15))
        else:
            A = M(p["a"]) * mp.exp(1j * M(p["b"])) + M(k["kappa"]) * mp.mpc(s["cos_total"], s["sin_total"])
            mag = M(p["a"]) + M(k["kappa"]) * (abs(M(s["cos_total"])) + abs(M(s["sin_total"])))
            expect(float(post.a) >= 0, "%s: resultant length %r is negative", f.fn, post.a)
            G = M(post.a) * mp.exp(1j * M(post.b))
            expect(abs(G - A) <= 1e-12 * mag, "%s: resultant %s, should be %s", f.fn, mp.nstr(G, 12), mp.nstr(A, 12))
        t1, t2 = c["theta"]
        vm = f.fn == "von_mises_known_concentration"
        g = []
        for t in (t1, t2):
            if c["asarray"]:
                ta = [np.array([v, v]) for v in t] if isinstance(t, list) else np.array([t, t])
                a = np.asarray(sut(f.curve, post, k, ta))
                b = np.asarray(sut(f.curve, prior, k, ta))
                expect(a.shape == (2,) and b.shape == (2,), "%s: curve at 2 points has shape %s", f.fn, a.shape)
                a, b = a[1], b[1]
            else:
                a, b = sut(f.curve, post, k, t), sut(f.curve, prior, k, t)
            if vm:
                (a, big1), (b, big2) = stable(a, post, t), stable(b, prior, t)
                if big1 or big2:
                    rec.known("bessel-overflow", "log_likelihood is -inf for a = %r" % (post.a if big1 else prior.a))
            expect(math.isfinite(float(a)) and math.isfinite(float(b)), "%s: curve is not finite: %r %r at %r", f.fn, a, b, t)
            g += [(M(a), M(b), f.ll(d, k, t))]
        terms = [g[0][0], -g[0][1], -g[0][2], -g[1][0], g[1][1], g[1][2]]
        size = sum(abs(x) for x in terms)
        for t in (t1, t2):
            v = t if isinstance(t, list) else [t]
            # the curves are differences of large multiples of log gammas and logs
            w = sum(abs(M(x)) for x in list(p.values()) + list(s.values()) if abs(x) < 1e18) + 1
            size += w * sum(abs(x) + 1 for x in v) * 20
        gap = mp.fsum(terms)
        expect(abs(gap) <= 1e-10 * size, "%s: posterior curve - prior curve - log likelihood varies by %s (theta %r, %r)",
               f.fn, mp.nstr(gap, 8), t1, t2)
        rec.nontrivial(n >= 1 and t1 != t2)
        rec.label(c["kind"][:3], "array" if c["asarray"] else "scalar", "n>20" if n > 20 else "n<=20")

    return check


for f in FAMS:
    sub("C04", "curve-" + f.fn, case(f), quick=400, thorough=12000, shards=2,
        rule="at least one observation and two distinct parameter points")(mk(f))


# ------------------------------------------------------------------ nearly flat and nearly certain priors, long histories
NEAR1 = st.floats(0.9995, 1.0005)


def farcase(f):
    @st.composite
    def build(draw):
        known = draw(st.fixed_dictionaries(f.known))
        p = {k: draw(mostly(s, TEN)) if k != "b" or f.fn == "gamma_known_rate" else draw(s) for k, s in f.fields.items()}
        if f.fn == "beta":
            p.update({k: min(p[k], 1.0) for k in "pq"})
        if f.fn.startswith("gamma"):
            item, hi = st.one_of(f.item(known), NEAR1), 1000
        else:
            item, hi = f.item(known), min(f.mhi * 10, 10**6)
        data = []
        for v, m in draw(gen.items(item, 0, 4, hi)):
            # keep the product a double
            data.append([v, max(1, min(m, int(60 / max(abs(math.log(v)), abs(math.log1p(-v)) if f.fn == "beta" else 0, 1e-9))))
                         if f.fn in ("beta", "gamma", "gamma_known_rate") else m])
        return {"prior": p, "known": known, "data": data, "theta": [draw(f.theta), draw(f.theta)],
                "kind": draw(gen.KIND), "asarray": draw(st.booleans())}

    return build()


for f in FAMS:
    sub("C04", "far-" + f.fn, farcase(f), quick=150, thorough=5000,
        rule="at least one observation and two distinct parameter points")(mk(f))
