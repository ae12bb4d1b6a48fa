"""C01/C02: posteriors obey Bayes' rule (scalar models and Dirichlet models)."""
import mpmath as mp
import numpy as np
from hypothesis import strategies as st

from pbt import gen, models, ref
from pbt.core import expect, fail, sub, sut
from pbt.ref import M, close

DENS = {  # log density method of the attached object at theta
    "Beta": lambda d, t: d.logpdf(float(t)),
    "Gamma": lambda d, t: d.logpdf(float(t)),
    "Normal": lambda d, t: d.logpdf(float(t)),
    "InverseGamma": lambda d, t: d.logpdf(float(t)),
    "ScaledInverseChiSquared": lambda d, t: d.logpdf(float(t)),
    "Pareto": lambda d, t: d.logpdf(float(t)),
}


def theta(m, c, i):
    t = c["theta"][i]
    return m.theta_of(c, t) if m.theta_of else M(t)


def kernel_gap(lp1, lp0, ll, t1, t2):
    """[lp1-lp0-ll](t1) - [...](t2) and the magnitude of its terms"""
    terms = [lp1(t1), -lp0(t1), -ll(t1), -lp1(t2), lp0(t2), ll(t2)]
    return mp.fsum(terms), mp.fsum(abs(x) for x in terms)


def bayes(m):
    def check(c, rec):
        data, known, prior = c["data"], c["known"], c["prior"]
        s = m.stats(data, known)
        pobj = sut(models.make_prior, m, prior, c["kind"])
        post = sut(models.call, m, pobj, {**known, **m.consts}, s, c["kind"])
        expect(type(post).__name__ == m.post, "%s returned %s, not %s", m.name, type(post).__name__, m.post)
        want = m.update(prior, known, s)
        for f, (v, mag) in want.items():
            got = getattr(post, f)
            expect(
                close(got, v, mag, 1e-12),
                "%s: %s = %r, Bayes' rule gives %s", m.name, f, got, mp.nstr(v, 17),
            )
        # the density itself, at two parameter points, from the definition of the likelihood
        t1, t2 = theta(m, c, 0), theta(m, c, 1)
        pf = {f: getattr(post, f) for f in m.fields}
        lp0 = lambda t: m.logprior(prior, t)
        lp1 = lambda t: m.logprior(pf, t)
        ll = lambda t: m.loglik(data, known, t)
        gap, mag = kernel_gap(lp1, lp0, ll, t1, t2)
        if mp.isfinite(mag):
            # sensitivity to the rounding of the sufficient statistics is bounded by the data terms
            expect(abs(gap) <= 1e-9 * (mag + 1), "%s: log posterior - log prior - log likelihood varies by %s over theta",
                   m.name, mp.nstr(gap, 8))
        if m.post in DENS:
            for t in (t1, t2):
                w = m.logprior(pf, t)
                wf = m.logprior(pf, M(float(t)))
                g = sut(DENS[m.post], post.dist, t)
                big = sum(abs(M(v)) for v in pf.values()) * (1 + abs(mp.log(abs(t) + mp.mpf(10) ** -300)) + abs(t)) + 1
                if m.post == "Normal":
                    big = ((t - M(pf["mu"])) / M(pf["sigma"])) ** 2 + 10
                if m.post in ("InverseGamma", "ScaledInverseChiSquared"):
                    big += sum(abs(M(v)) for v in pf.values()) ** 2 + sum(abs(M(v)) for v in pf.values()) / t
                if mp.isfinite(wf) and wf > -500:  # scipy forms some log densities as log(pdf)
                    expect(close(g, wf, big + abs(w), 1e-7), "%s: posterior log density at %s is %r, should be %s",
                           m.name, mp.nstr(t, 8), g, mp.nstr(wf, 15))
        n = sum(k for _, k in data)
        rec.nontrivial(n >= 1 and t1 != t2)
        rec.label("kind=" + c["kind"][:3], "n>1000" if n > 1000 else "n<=1000", "%d items" % len(data))

    return check


for m in models.MODELS:
    mx = 1 if m.name == "bernoulli_beta" else 5
    # no observations at all is a data set too, where the statistics describe it
    mn = 1 if m.name in ("bernoulli_beta", "uniform_pareto") else 0
    sub(
        m.prop, "bayes-" + m.key, models.case_st(m, mn, mx), quick=150, thorough=6000,
        rule="at least one observation and two distinct parameter points",
    )(bayes(m))


# ------------------------------------------------------------------ nearly flat and nearly certain priors
def farcase(m, mn, mx):
    return models.far_prior_st(m).flatmap(lambda p: models.case_st(m, mn, mx, nthetas=0).map(lambda c: {**c, "prior": p, "kind": "raw"}))


def far(m):
    def check(c, rec):
        s = m.stats(c["data"], c["known"])
        pobj = sut(models.make_prior, m, c["prior"], c["kind"])
        post = sut(models.call, m, pobj, {**c["known"], **m.consts}, s, c["kind"])
        for f, (v, mag) in m.update(c["prior"], c["known"], s).items():
            got = getattr(post, f)
            expect(close(got, v, mag, 1e-12), "%s with prior %r: %s = %r, Bayes' rule gives %s", m.name, c["prior"], f, got, mp.nstr(v, 17))
        vs = [abs(float(v)) for f, v in c["prior"].items() if f != "mu"]
        rec.nontrivial(bool(c["data"]) and (min(vs) < 1e-3 or max(vs) > 1e4))
        rec.label("small" if min(vs) < 1e-3 else "", "large" if max(vs) > 1e4 else "")

    return check


for m in models.MODELS:
    sub(m.prop, "far-priors-" + m.key, farcase(m, 1, 1 if m.name == "bernoulli_beta" else 4), quick=60, thorough=3000,
        rule="some data and a parameter below 1e-3 or above 1e4")(far(m))


# ------------------------------------------------------------------ Dirichlet
@st.composite
def dir_case(draw, cat):
    k = draw(st.one_of(st.integers(2, 6), st.integers(2, 6), gen.integer(7, 60)))
    return {
        "alpha": draw(gen.vec(draw(st.sampled_from([gen.pos(1e-2, 1e4), gen.pos(1e-2, 1e4), gen.pos(1e-8, 1e8)])), k)),
        "x": draw(gen.vec(gen.integer(0, 10**6), k)),
        "t": [draw(gen.simplex(k)), draw(gen.simplex(k))],
        "how": draw(st.sampled_from(["arr", "intarr", "list-arr", "arr-list", "list-list", "tuple"])),
    }


def dir_args(c):
    a, x = c["alpha"], c["x"]
    how = c["how"]
    return {
        "arr": lambda: (np.array(a, float), np.array(x, float)),
        "intarr": lambda: (np.array(a), np.array(x)),
        "list-arr": lambda: (list(a), np.array(x)),
        "arr-list": lambda: (np.array(a), list(x)),
        "list-list": lambda: (list(a), list(x)),
        "tuple": lambda: (tuple(a), tuple(x)),
    }[how]()


def dirichlet(name):
    def check(c, rec):
        import conjugate.distributions as D
        import conjugate.models as F

        a, x = dir_args(c)
        post = sut(getattr(F, name), x=x, prior=D.Dirichlet(alpha=a))
        expect(type(post).__name__ == "Dirichlet", "%s returned %s", name, type(post).__name__)
        got = list(post.alpha)
        expect(len(got) == len(c["alpha"]), "%s: %d categories became %d", name, len(c["alpha"]), len(got))
        for g, u, v in zip(got, c["alpha"], c["x"]):
            expect(close(g, M(u) + v), "%s: alpha %r + count %r gave %r", name, u, v, g)
        # exactly normalised simplex points
        ts = [[M(v) / mp.fsum(M(t)) for v in t] for t in c["t"]]
        gap, mag = kernel_gap(
            lambda t: ref.dirichlet(t, M(got)), lambda t: ref.dirichlet(t, M(c["alpha"])),
            lambda t: mp.fsum(v * mp.log(q) for v, q in zip(c["x"], t)), *ts,
        )
        expect(abs(gap) <= 1e-9 * (mag + 1), "%s: not proportional to prior times likelihood", name)
        t = np.array(c["t"][0])
        t = t / t.sum()
        t[-1] = 1 - t[:-1].sum()
        if (t > 1e-6).all():
            g = sut(lambda: post.dist.logpdf(t))
            w = ref.dirichlet(M(t), M(got))
            expect(close(g, w, sum(abs(v) * 10 for v in M(got)) + 10, 1e-8), "%s: posterior density %r, should be %s", name, g, w)
        rec.nontrivial(sum(c["x"]) > 0)
        rec.label(c["how"], "k=%d" % len(got))

    return check


for nm in ("categorical_dirichlet", "multinomial_dirichlet"):
    sub("C01", "bayes-" + nm, dir_case(nm), quick=150, rule="positive total count")(dirichlet(nm))


# ------------------------------------------------------------------ exponential helper (shared update with swapped roles)
@sub("C02", "helper-exponential", st.fixed_dictionaries(dict(a=gen.pos(), b=gen.pos(), n=gen.integer(1, 1000), x=gen.pos())),
     quick=60)
def exp_helper(c, rec):
    import conjugate.models as F
    import conjugate.distributions as D

    post = sut(F.exponential_gamma, x_total=c["x"], n=c["n"], prior=D.Gamma(c["a"], c["b"]))
    expect(close(post.alpha, M(c["a"]) + c["n"]), "alpha %r", post.alpha)
    expect(close(post.beta, M(c["b"]) + M(c["x"])), "beta %r", post.beta)
    rec.nontrivial()


@sub("C01", "bernoulli-flags", st.fixed_dictionaries(dict(
    a=gen.pos(), b=gen.pos(), x=st.lists(st.booleans(), min_size=1, max_size=6), how=st.sampled_from(["py", "np", "arr", "0d", "int32", "pair"]))),
     quick=100, rule="both outcomes or a numpy flag")
def flags(c, rec):
    """outcomes given as truth values"""
    import conjugate.distributions as D
    import conjugate.models as F

    xs, how = c["x"], c["how"]
    if how in ("arr", "int32"):
        v = np.array(xs, dtype=bool if how == "arr" else np.int32)
    else:
        v = {"py": bool, "np": np.bool_, "0d": np.array, "pair": lambda x: np.array([x])}[how](xs[0])
    post = sut(F.bernoulli_beta, x=v, prior=D.Beta(c["a"], c["b"]))
    n = xs if how in ("arr", "int32") else xs[:1]
    al, be = np.ravel(post.alpha), np.ravel(post.beta)
    expect(len(al) == len(n) and len(be) == len(n), "%d outcomes gave %r", len(n), post)
    for g, h, x in zip(al, be, n):
        expect(close(g, M(c["a"]) + int(x)) and close(h, M(c["b"]) + 1 - int(x)), "outcome %r (%s): %r", x, how, post)
    rec.nontrivial(how != "py" or True in xs)
    rec.label(how)


# ------------------------------------------------------------------ hypergeometric
@st.composite
def hyper_case(draw):
    N = draw(gen.integer(1, 2000))
    n = draw(st.integers(1, N))
    x = draw(st.one_of(st.integers(0, n), st.sampled_from([0, n])))
    return {"N": N, "n": n, "x": x, "alpha": draw(gen.pos(1e-2, 1e3)), "beta": draw(gen.pos(1e-2, 1e3))}


@sub("C01", "bayes-hypergeometric", hyper_case(), quick=200, rule="sampled fewer than the population")
def hyper(c, rec):
    """population of N items, unknown number K of successes ~ prior; n drawn, x successes seen.

    K - x | x ~ BetaBinomial(N - n, alpha + x, beta + n - x)."""
    import conjugate.distributions as D
    import conjugate.models as F

    post = sut(
        F.hypergeometric_beta_binomial, x_total=c["x"], n=c["n"],
        prior=D.BetaBinomial(n=c["N"], alpha=c["alpha"], beta=c["beta"]),
    )
    expect(type(post).__name__ == "BetaBinomial", "returned %s", type(post).__name__)
    a, b, N, n, x = M(c["alpha"]), M(c["beta"]), c["N"], c["n"], c["x"]
    bayes_ok = (
        close(post.alpha, a + x) and close(post.beta, b + n - x, b + n + x) and post.n in (N - n, N)
    )
    if not bayes_ok or (post.n == N and n != N):
        listed = post.n == N and close(post.alpha, a + x) and close(post.beta, b + N - x, b + N + x)
        msg = "hypergeometric N=%d n=%d x=%d returned %r" % (N, n, x, post)
        if listed:
            rec.known("hypergeometric-ignores-n", msg)
        else:
            fail(msg)
    rec.nontrivial(n < N)
