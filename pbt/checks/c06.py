"""C06: incremental updating equals one batch update (trees of updates)."""
import mpmath as mp
import numpy as np
from hypothesis import strategies as st

from pbt import gen, models, mvmodels as mv
from pbt.checks import c04
from pbt.core import expect, sub, sut
from pbt.ref import M, close


@st.composite
def tree(draw, nitems, allow_empty, single=False):
    """[[parent, [item, ...]], ...]: node i+1 updates node `parent` with the items"""
    ops = []
    n = draw(st.integers(2, 6))
    for i in range(n):
        parent = i if draw(st.integers(0, 3)) else draw(st.integers(0, i))
        if single:
            b = [draw(st.integers(0, nitems - 1))]
        else:
            b = draw(st.lists(st.integers(0, nitems - 1), min_size=0 if allow_empty else 1, max_size=3))
        ops.append([parent, b])
    return ops


def path(ops, i):
    """items on the way from the root to node i"""
    out = []
    while i > 0:
        parent, b = ops[i - 1]
        out = b + out
        i = parent
    return out


def depth(ops, i):
    d = 0
    while i > 0:
        i = ops[i - 1][0]
        d += 1
    return d


def run_tree(ops, root, step, refroot, refstep, compare, rec):
    """step(obj, items); refstep(ref, items) -> ref; compare(obj, ref, what, scale)"""
    nodes, refs = [root], [refroot]
    for parent, b in ops:
        nodes.append(step(nodes[parent], b))
        refs.append(refstep(refs[parent], b))
    for i in range(1, len(nodes)):
        d = depth(ops, i)
        compare(nodes[i], refs[i], "after %d sequential updates" % d)
        items = path(ops, i)
        if items:
            compare(step(root, items), refs[i], "one batch update (path of %d updates)" % d)
    compare(root, refroot, "the prior after the history")
    parents = [p for p, _ in ops]
    branching = len(set(parents)) < len(parents)
    rec.label("branching" if branching else "chain", "with empty batch" if any(not b for _, b in ops) else "no empty batch",
              "depth=%d" % max(depth(ops, i) for i in range(len(ops) + 1)))
    rec.nontrivial(sum(1 for _, b in ops if b) >= 2)


# ------------------------------------------------------------------ scalar models
def scalar_case(m):
    @st.composite
    def build(draw):
        known = draw(models.known_st(m))
        n = draw(st.integers(1, 5))
        data = [list(draw(st.tuples(m.item(known), gen.mult(min(m.max_mult, 1000))))) for _ in range(n)]
        return {"prior": draw(st.one_of(models.prior_st(m), models.far_prior_st(m))), "known": known, "data": data,
                "ops": draw(tree(n, m.name != "bernoulli_beta", m.name == "bernoulli_beta"))}

    return build()


EMPTY_STATS = {"x_max": 0}


def batch_stats(m, data, known):
    if not data:
        if m.name == "uniform_pareto":
            return {"x_max": 0.0, "n": 0}
    return m.stats(data, known)


def scalar(m):
    def check(c, rec):
        data, known = c["data"], c["known"]

        def step(obj, b):
            if m.name == "bernoulli_beta" and len(b) != 1:  # the batch form of Bernoulli data
                import conjugate.models as F

                return sut(F.binomial_beta, n=len(b), x=sum(data[i][0] for i in b), prior=obj)
            s = batch_stats(m, [data[i] for i in b], known)
            return sut(models.call, m, obj, {**known, **m.consts}, s)

        def refstep(r, b):
            s = batch_stats(m, [data[i] for i in b], known)
            u = m.update({k: v for k, (v, _) in r.items()}, known, s)
            return {k: (v, mag + r[k][1]) for k, (v, mag) in u.items()}

        def compare(obj, r, what):
            for f, (v, mag) in r.items():
                expect(close(getattr(obj, f), v, mag, 1e-11), "%s: %s = %r %s, should be %s", m.name, f, getattr(obj, f), what,
                       mp.nstr(v, 16))

        root = sut(models.make_prior, m, c["prior"])
        ref0 = {k: (M(v), abs(M(v))) for k, v in c["prior"].items()}
        if m.name in ("normal", "log_normal", "normal_normal_inverse_gamma"):
            # the square of the largest mean met on the way bounds the cancellation in beta
            xs = [abs(mp.log(M(v))) if m.name == "log_normal" else abs(M(v)) for v, _ in data] + [abs(M(c["prior"]["mu"]))]
            n = sum(k for i, k in data) * 6 + M(c["prior"].get("nu", c["prior"].get("lam")))
            ref0["beta"] = (ref0["beta"][0], ref0["beta"][1] + n * max(xs) ** 2)
            ref0["mu"] = (ref0["mu"][0], max(xs))
        if m.name in ("normal_known_variance", "normal_known_precision"):
            ref0["mu"] = (ref0["mu"][0], max([abs(M(v)) for v, _ in data] + [abs(ref0["mu"][0])]))
        if m.name == "normal_known_mean":
            for f in ("beta", "sigma2"):
                if f in ref0:
                    b = sum((M(v) ** 2 + M(known["mu"]) ** 2) * k for v, k in data) * 6
                    ref0[f] = (ref0[f][0], ref0[f][1] + b)
        if m.name == "pareto_gamma":
            b = sum((abs(mp.log(M(v))) + abs(mp.log(M(known["x_m"])))) * k for v, k in data) * 6
            ref0["beta"] = (ref0["beta"][0], ref0["beta"][1] + b)
        run_tree(c["ops"], root, step, ref0, refstep, compare, rec)

    return check


for m in models.MODELS:
    if m.name == "normal_normal_inverse_gamma":
        continue
    sub("C06", "tree-" + m.key, scalar_case(m), quick=100, thorough=5000, rule="at least two non-empty updates")(scalar(m))


# ------------------------------------------------------------------ unnormalised families
def fam_case(f):
    @st.composite
    def build(draw):
        known = draw(st.fixed_dictionaries(f.known))
        n = draw(st.integers(1, 4))
        data = [list(draw(st.tuples(f.item(known), st.integers(1, 5)))) for _ in range(n)]
        return {"prior": draw(st.fixed_dictionaries(f.fields)), "known": known, "data": data, "ops": draw(tree(n, True))}

    return build()


def fam(f):
    def check(c, rec):
        import conjugate.distributions as D
        import conjugate.models as F

        data, known = c["data"], c["known"]
        kw0 = {k: v for k, v in known.items() if k[0] != "_"}
        total = {"m": sum(k for _, k in data) * 6 * max([1.0, float(known.get("kappa", 1))]) + 10}

        def step(obj, b):
            return sut(getattr(F, f.fn), prior=obj, **kw0, **f.stats([data[i] for i in b], known))

        def refstep(r, b):
            s = f.stats([data[i] for i in b], known)
            if f.update:
                return {k: v for k, v in f.update(r, s).items()}
            return {"z": r["z"] + M(known["kappa"]) * mp.mpc(s["cos_total"], s["sin_total"])}

        def compare(obj, r, what):
            if f.update:
                for k, v in r.items():
                    mag = None if k in "pa" or f.fn == "beta" else abs(v) + total["m"] * 20
                    expect(close(getattr(obj, k), v, mag, 1e-10), "%s: %s = %r %s, should be %s", f.fn, k, getattr(obj, k), what,
                           mp.nstr(v, 15))
            else:
                G = M(obj.a) * mp.exp(1j * M(obj.b))
                expect(abs(G - r["z"]) <= 1e-10 * (abs(r["z"]) + total["m"] + c["prior"]["a"]), "%s: resultant %s %s, should be %s",
                       f.fn, mp.nstr(G, 10), what, mp.nstr(r["z"], 10))

        root = sut(getattr(D, f.prior), **c["prior"])
        p = {k: M(v) for k, v in c["prior"].items()}
        if not f.update:
            p = {"z": p["a"] * mp.exp(1j * p["b"])}
        run_tree(c["ops"], root, step, p, refstep, compare, rec)

    return check


for f in c04.FAMS:
    sub("C06", "tree-" + f.fn, fam_case(f), quick=100, thorough=4000, rule="at least two non-empty updates")(fam(f))


# ------------------------------------------------------------------ Dirichlet (arrays and lists mixed along the history)
@st.composite
def dcase(draw):
    k, n = draw(st.integers(2, 5)), draw(st.integers(1, 4))
    return {
        "fn": draw(st.sampled_from(["categorical_dirichlet", "multinomial_dirichlet"])),
        "alpha": draw(gen.vec(gen.pos(1e-4, 1e3), k)), "data": draw(gen.mat(st.one_of(st.just(0), gen.integer(0, 10**6)), n, k)),
        "how": draw(st.sampled_from(["arr", "list", "tuple"])), "alist": draw(st.booleans()), "ops": draw(tree(n, True)),
    }


@sub("C06", "tree-dirichlet", dcase(), quick=200, rule="at least two non-empty updates")
def dtree(c, rec):
    import conjugate.distributions as D
    import conjugate.models as F

    k = len(c["alpha"])
    conv = {"arr": np.array, "list": list, "tuple": tuple}[c["how"]]

    def step(obj, b):
        x = [sum(c["data"][i][j] for i in b) for j in range(k)]
        return sut(getattr(F, c["fn"]), x=conv(x), prior=obj)

    def refstep(r, b):
        return [r[j] + sum(c["data"][i][j] for i in b) for j in range(k)]

    def compare(obj, r, what):
        got = list(obj.alpha)
        expect(len(got) == k and all(close(g, w, None, 1e-12) for g, w in zip(got, r)), "%s: alpha %r %s, should be %s", c["fn"], got,
               what, [mp.nstr(v, 12) for v in r])

    root = D.Dirichlet(list(c["alpha"]) if c["alist"] else np.array(c["alpha"], float))
    run_tree(c["ops"], root, step, M(c["alpha"]), refstep, compare, rec)


# ------------------------------------------------------------------ multivariate
def mvcase(name):
    @st.composite
    def build(draw):
        c = draw(mv.case_st(name, lo=1, pmax=3, mhi=20 if draw(st.booleans()) else 1, maxrows=4))
        c["ops"] = draw(tree(len(c["data"]), name != "multivariate_normal"))
        del c["theta"]
        return c

    return build()


def mvtree(name):
    def check(c, rec):
        p, data, known = c["p"], c["data"], c["known"]

        def rows(b):
            return [data[i] for i in b]

        def step(obj, b):
            kw = mv.stats(name, p, rows(b), known, c["ints"])
            return mv.call(name, obj, kw)

        root = mv.make_prior(name, c["prior"], c["ints"])

        def refroot():
            return []

        def exact(items):
            kw = {}
            if name in mv.MV[:2]:
                n = sum(m for _, m in rows(items))
                kw["x_bar"] = [
                    mp.fsum(M(m) * M(r[i]) for r, m in rows(items)) / n if n else M(0) for i in range(p)
                ]
            return mv.update(name, p, c["prior"], known, rows(items), kw)

        cache = {}

        def compare(obj, items, what):
            if not items and name == "multivariate_normal":
                return
            key = tuple(sorted(items))
            if key not in cache:
                cache[key] = exact(items)
            want = cache[key]
            # the updates of psi invert nothing
            k0 = 10 if name in mv.MV[2:] else mv.cond(name, c["prior"], known)
            sizes = max([abs(v) for r, _ in data for v in r] + [1.0])
            for f, (v, mag) in want.items():
                kk = k0
                if name != "multivariate_normal" and ("cov" in want or "delta_inverse" in want):
                    mat = want.get("cov", want.get("delta_inverse"))[0]
                    kk *= np.linalg.cond(np.array(mat.tolist(), float)) ** 2
                rel = 1e-11 * kk
                if rel > 1e-4:
                    continue
                if f in ("mu", "psi", "beta"):
                    mag = mag + sizes * (1 if f == "mu" else sizes * sum(m for _, m in data) * 20)
                expect(mv.close_arr(getattr(obj, f), v, mag, rel), "%s: %s = %r %s, should be %s", name, f, getattr(obj, f), what, v)

        run_tree(c["ops"], root, step, [], lambda r, b: r + b, compare, rec)

    return check


for nm in mv.ALL:
    sub("C06", "tree-" + nm, mvcase(nm), quick=120, thorough=3000, rule="at least two non-empty updates")(mvtree(nm))


# ------------------------------------------------------------------ different models sharing one prior family
GROUPS = {
    "Beta": ["binomial_beta-Beta", "bernoulli_beta-Beta", "negative_binomial_beta-Beta", "geometric_beta-1", "geometric_beta-0"],
    "Gamma": ["poisson_gamma-Gamma", "exponential_gamma-Gamma", "gamma_known_shape-Gamma", "inverse_gamma_known_rate-Gamma"],
    "InverseGamma": ["normal_known_mean-InverseGamma", "weibull_inverse_gamma_known_shape-InverseGamma"],
    "Normal": ["normal_known_variance-Normal", "normal_known_precision-Normal"],
    "NormalInverseGamma": ["normal-NormalInverseGamma", "log_normal-NormalInverseGamma"],
}


@st.composite
def mixed_case(draw):
    g = draw(st.sampled_from(sorted(GROUPS)))
    m0 = models.BY_KEY[GROUPS[g][0]]
    steps = []
    for _ in range(draw(st.integers(2, 5))):
        key = draw(st.sampled_from(GROUPS[g]))
        m = models.BY_KEY[key]
        known = draw(models.known_st(m))
        steps.append([key, known, draw(gen.items(m.item(known), 1, 1 if m.name == "bernoulli_beta" else 2, min(m.max_mult, 50)))])
    return {"group": g, "prior": draw(models.prior_st(m0)), "steps": steps, "perm": draw(st.permutations(list(range(len(steps)))))}


@sub("C06", "mixed-models-any-order", mixed_case(), quick=300, rule="at least two different models in the history")
def mixed(c, rec):
    m0 = models.BY_KEY[GROUPS[c["group"]][0]]
    outs = []
    mags = None
    for order in (range(len(c["steps"])), c["perm"]):
        obj = sut(models.make_prior, m0, c["prior"])
        r = {k: (M(v), abs(M(v))) for k, v in c["prior"].items()}
        for i in order:
            key, known, data = c["steps"][i]
            m = models.BY_KEY[key]
            s = m.stats(data, known)
            obj = sut(models.call, m, obj, {**known, **m.consts}, s)
            u = m.update({k: v for k, (v, _) in r.items()}, known, s)
            r = {k: (v, mag + r[k][1]) for k, (v, mag) in u.items()}
        if "beta" in r and c["group"] in ("NormalInverseGamma", "InverseGamma"):
            big = sum(abs(M(d[0])) ** 2 * d[1] for _, _, data in c["steps"] for d in data) + sum(
                M(k.get("mu", 0)) ** 2 * d[1] for _, k, data in c["steps"] for d in data) + M(c["prior"].get("mu", 0)) ** 2 * M(c["prior"].get("nu", 0))
            r["beta"] = (r["beta"][0], r["beta"][1] + big)
        if "mu" in r:
            r["mu"] = (r["mu"][0], r["mu"][1] + max(abs(M(d[0])) for _, _, data in c["steps"] for d in data))
        for f, (v, mag) in r.items():
            expect(close(getattr(obj, f), v, mag, 1e-11), "history %s: %s = %r, should be %s", [c["steps"][i][0] for i in order], f,
                   getattr(obj, f), mp.nstr(v, 15))
    rec.nontrivial(len({k for k, _, _ in c["steps"]}) >= 2)
    rec.label(c["group"])
