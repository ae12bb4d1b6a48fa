"""C07: vectorised inputs behave as independent scalar problems."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import dists, gen, vec
from pbt.core import expect, fail, sub, sut


@st.composite
def shapes(draw, nargs):
    nd = draw(st.integers(1, 3))
    full = [draw(st.integers(1, 4)) for _ in range(nd)]
    out = []
    for _ in range(nargs):
        if draw(st.integers(0, 3)) == 0:
            out.append(None)  # python scalar
            continue
        s = [d if draw(st.booleans()) else 1 for d in full]
        drop = draw(st.integers(0, nd))
        if draw(st.booleans()):
            drop = 0
        # leading dimensions may be left out
        out.append(s[drop:])
    if all(s is None or all(d == 1 for d in s) for s in out):
        out[draw(st.integers(0, nargs - 1))] = full
    return out


def value(dom):
    lo, hi = dom[0], dom[1]
    if len(dom) == 3:
        return st.integers(lo, hi)
    return st.one_of(st.floats(lo, hi), st.sampled_from([v for v in (1.0, 2.0, 0.5, 3.0, float(lo), float(hi)) if lo <= v <= hi]))


LAYOUT = ["c", "c", "f", "strided", "readonly", "reversed", "int"]


def whole(dom):
    """whole numbers inside a real domain"""
    a, b = math.ceil(dom[0]), math.floor(dom[1])
    return st.integers(a, b).map(float) if a <= b else value(dom)


@st.composite
def args_case(draw, dom):
    names = sorted(dom)
    sh = draw(shapes(len(names)))
    out = {}
    for n, s in zip(names, sh):
        size = 1 if s is None else int(np.prod(s)) if s else 1
        v = value(dom[n])
        if len(dom[n]) == 2 and draw(st.integers(0, 3)) == 0:
            out[n] = {"shape": s, "v": [draw(whole(dom[n])) for _ in range(size)], "layout": "int"}
            continue
        vals = [draw(v) for _ in range(size)]
        out[n] = {"shape": s, "v": vals, "layout": draw(st.sampled_from(LAYOUT))}
    return out


def build(a):
    """the array presented to the code"""
    if a["shape"] is None:
        v = a["v"][0]
        return int(v) if a["layout"] == "int" and float(v).is_integer() else v
    v = np.array(a["v"], dtype=float).reshape(a["shape"])
    lay = a["layout"]
    if all(float(x) == int(x) for x in a["v"]) and (lay == "int" or isinstance(a["v"][0], int)):
        v = v.astype(np.int64)
    if lay == "f":
        v = np.asfortranarray(v)
    elif lay == "strided" and v.ndim:
        w = np.empty(v.shape[:-1] + (2 * v.shape[-1],), v.dtype)
        w[..., ::2] = v
        w[..., 1::2] = -99
        v = w[..., ::2]
    elif lay == "readonly":
        v = v.copy()
        v.setflags(write=False)
    elif lay == "reversed" and v.ndim:
        v = v[..., ::-1].copy()[..., ::-1]
    return v


def full_shape(case):
    return np.broadcast_shapes(*[tuple(a["shape"] or ()) for a in case.values()])


def at(a, full, idx):
    """python scalar at a broadcast index"""
    if a["shape"] is None:
        return a["v"][0]
    v = np.broadcast_to(np.array(a["v"], dtype=float).reshape(a["shape"]), full)[idx]
    v = float(v)
    return int(v) if isinstance(a["v"][0], int) else v


def same(x, y, rel=1e-10, abs_=1e-13):
    x, y = float(x), float(y)
    return x == y or (math.isfinite(x) and math.isfinite(y) and abs(x - y) <= rel * max(abs(x), abs(y)) + abs_) or (x != x and y != y)


def mk(o):
    def check(c, rec):
        full = full_shape(c)
        got = sut(o.fn, {n: build(a) for n, a in c.items()})
        fs = {f: np.asarray(getattr(got, f)) for f in o.fields}
        sh = np.broadcast_shapes(*[f.shape for f in fs.values()])
        if o.full:
            expect(sh == full, "%s: arguments broadcast to %r, result to %r", o.name, full, sh)
        try:
            fb = {k: np.broadcast_to(f, full) for k, f in fs.items()}
        except ValueError:
            fail("%s: result shapes %r do not broadcast to %r" % (o.name, [f.shape for f in fs.values()], full))
        for idx in np.ndindex(*full):
            one = sut(o.fn, {n: at(a, full, idx) for n, a in c.items()})
            for f in o.fields:
                expect(same(fb[f][idx], getattr(one, f)), "%s: %s%r = %r, the scalar problem gives %r", o.name, f, list(idx), fb[f][idx],
                       getattr(one, f))
        shp = {tuple(a["shape"] or ()) for a in c.values()}
        rec.nontrivial(int(np.prod(full)) > 1 and len(shp) > 1)
        rec.label("ndim=%d" % len(full), "mixed shapes" if len(shp) > 1 else "one shape",
                  *{a["layout"] for a in c.values() if a["shape"] is not None})

    return check


for o in vec.OPS:
    sub("C07", o.name.replace(":", "-"), args_case(o.dom), quick=60, thorough=2500,
        rule="several elements and arguments of different shapes")(mk(o))


# groups without observations next to groups with some
NEUTRAL = {"x_prod": 1.0, "one_minus_x_prod": 1.0}
TOTALS = ("n", "x", "x_total", "x2_total", "ln_x_total", "ln_x2_total", "reciprocal_x_total", "x_beta_total", "x_max", "x_prod", "one_minus_x_prod",
          "cos_total", "sin_total", "centered_cos_total")
GROUPS = [o for o in vec.OPS if o.name.startswith("model:") and "n" in o.dom]
KINDS = {o.name: o for o in GROUPS}


@st.composite
def group_case(draw):
    o = draw(st.sampled_from(GROUPS))
    c = draw(args_case(o.dom))
    shape = [draw(st.integers(2, 5))]
    if draw(st.integers(0, 3)) == 0:
        shape.insert(0, draw(st.integers(1, 3)))
    k = int(np.prod(shape))
    empty = draw(st.lists(st.booleans(), min_size=k, max_size=k))
    params = [n for n in o.dom if n not in TOTALS or (o.name == "model:hypergeometric_beta_binomial" and n == "N")]
    for n in o.dom:
        if n in params:  # one per group, one for all, or one per column
            s = draw(st.sampled_from([None, shape, shape[-1:], [1]]))
            cnt = 1 if s is None else int(np.prod(s))
            c[n] = {"shape": s, "v": [draw(value(o.dom[n])) for _ in range(cnt)], "layout": "c"}
        else:
            v = [draw(value(o.dom[n])) for _ in range(k)]
            zero = NEUTRAL.get(n, 0 if isinstance(v[0], int) else 0.0)
            c[n] = {"shape": shape, "v": [zero if e else w for e, w in zip(empty, v)], "layout": draw(st.sampled_from(["c", "f", "strided", "readonly", "int"]))}
    return {"op": o.name, "args": c, "empty": empty}


@sub("C07", "groups-without-observations", group_case(), quick=500, thorough=12000, rule="some group empty and some not")
def groups(c, rec):
    mk(KINDS[c["op"]])(c["args"], _Quiet(rec))
    rec.nontrivial(any(c["empty"]) and not all(c["empty"]))
    rec.label(c["op"])


class _Quiet:
    """the inner check's own idea of non-trivial does not count here"""

    def __init__(self, rec):
        self.rec = rec

    def nontrivial(self, *a):
        pass

    def label(self, *a):
        pass


# ------------------------------------------------------------------ probability functions of distributions with array parameters
def dist_case(d):
    @st.composite
    def build_(draw):
        return {"args": draw(args_case(d.vec)), "x": [draw(d.x) for _ in range(draw(st.integers(1, 3)))],
                "q": [draw(gen.prob(1e-3)) for _ in range(2)]}

    return build_()


def dmk(d):
    def check(c, rec):
        full = full_shape(c["args"])
        obj = sut(d.make, {n: build(a) for n, a in c["args"].items()})
        xs = np.array(c["x"], dtype=float if d.continuous else int).reshape((-1,) + (1,) * len(full))
        dist = sut(lambda: obj.dist)
        outs = {}
        for meth in d.methods:
            a = xs if meth not in ("ppf", "mean", "var") else np.array(c["q"]).reshape((-1,) + (1,) * len(full))
            if meth in ("mean", "var"):
                r = np.asarray(sut(getattr(dist, meth)))
                expect(r.shape == full, "%s.%s has shape %r, parameters broadcast to %r", d.name, meth, r.shape, full)
                outs[meth] = r[None]
            else:
                r = np.asarray(sut(getattr(dist, meth), a))
                expect(r.shape == (a.shape[0],) + full, "%s.%s has shape %r, should be %r", d.name, meth, r.shape, (a.shape[0],) + full)
                outs[meth] = r
                # one plain number against the whole array of parameters
                j = len(a) - 1
                v = (c["q"] if meth == "ppf" else c["x"])[j]
                for v1 in (v, np.float64(v) if d.continuous or meth == "ppf" else np.int64(v), np.array(v)):
                    r1 = np.asarray(sut(getattr(dist, meth), v1))
                    expect(r1.shape == full, "%s.%s of one number has shape %r, should be %r", d.name, meth, r1.shape, full)
                    expect(all(same(x, y, 1e-8, 1e-11) for x, y in zip(r1.ravel(), r[j].ravel())), "%s.%s(%r) = %r, in an array %r", d.name,
                           meth, v, r1, r[j])
        for idx in np.ndindex(*full):
            one = sut(lambda: d.make({n: at(a, full, idx) for n, a in c["args"].items()}).dist)
            for meth, r in outs.items():
                for j in range(r.shape[0]):
                    if meth in ("mean", "var"):
                        w = sut(getattr(one, meth))
                    else:
                        w = sut(getattr(one, meth), c["q"][j] if meth == "ppf" else c["x"][j])
                    expect(same(r[(j,) + idx], w, 1e-8, 1e-11), "%s.%s at %r: %r in the array, %r alone", d.name, meth, list(idx), r[(j,) + idx], w)
        shp = {tuple(a["shape"] or ()) for a in c["args"].values()}
        rec.nontrivial(int(np.prod(full)) > 1)
        rec.label("ndim=%d" % len(full), "mixed shapes" if len(shp) > 1 else "one shape")

    return check


for d in dists.DISTS:
    sub("C07", "dist-" + d.key, dist_case(d), quick=40, thorough=1500, rule="several elements")(dmk(d))


# ------------------------------------------------------------------ Dirichlet with a batch of parameter vectors
@st.composite
def dircase(draw):
    g, k = draw(st.integers(1, 4)), draw(st.integers(2, 4))
    return {"alpha": draw(gen.mat(gen.num(0.2, 20), g, k)), "x": draw(gen.mat(st.integers(0, 9), g if draw(st.booleans()) else 1, k)),
            "fn": draw(st.sampled_from(["categorical_dirichlet", "multinomial_dirichlet"])), "n": draw(st.integers(1, 5)), "flat": draw(st.booleans()), "ns": draw(st.lists(st.integers(1, 6), min_size=g, max_size=g))}


@sub("C07", "dirichlet-batch", dircase(), quick=100, rule="several rows")
def dirbatch(c, rec):
    import conjugate.distributions as D
    import conjugate.models as F

    a, x = np.array(c["alpha"], float), np.array(c["x"])
    if x.shape[0] == 1:
        x = x[0]
    prior = D.Dirichlet(a)
    if c.get("flat") and x.ndim == 2:  # one prior for several groups
        prior = D.Dirichlet(a[0])
        a = np.broadcast_to(a[0], x.shape)
    post = sut(getattr(F, c["fn"]), x=x, prior=prior)
    expect(np.shape(post.alpha) == a.shape, "shape %r became %r", a.shape, np.shape(post.alpha))
    mean = np.asarray(sut(lambda: post.dist.mean()))
    pred = sut(getattr(F, c["fn"] + "_predictive"), distribution=post, n=c["n"])
    expect(mean.shape == a.shape, "mean has shape %r", mean.shape)
    for i in range(a.shape[0]):
        xi = x[i] if x.ndim == 2 else x
        one = sut(getattr(F, c["fn"]), x=xi, prior=D.Dirichlet(a[i]))
        expect(np.allclose(post.alpha[i], one.alpha, rtol=1e-12), "row %d: %r alone %r", i, post.alpha[i], one.alpha)
        expect(np.allclose(mean[i], one.dist.mean(), rtol=1e-10), "row %d mean: %r alone %r", i, mean[i], one.dist.mean())
        p1 = sut(getattr(F, c["fn"] + "_predictive"), distribution=one, n=c["n"])
        out = np.zeros(a.shape[1], int)
        out[i % a.shape[1]] = c["n"]
        g = np.asarray(sut(pred.dist.pmf, out))
        expect(g.shape == (a.shape[0],), "predictive pmf has shape %r", g.shape)
        expect(same(g[i], sut(p1.dist.pmf, out), 1e-9), "row %d pmf: %r alone %r", i, g[i], p1.dist.pmf(out))
    if len(c.get("ns", ())) == a.shape[0]:  # a number of trials for each group
        ns = np.array(c["ns"])
        outs = np.zeros(a.shape, int)
        outs[np.arange(len(ns)), np.arange(len(ns)) % a.shape[1]] = ns - 1
        outs[:, -1] += 1
        g = np.asarray(sut(sut(getattr(F, c["fn"] + "_predictive"), distribution=post, n=ns).dist.pmf, outs))
        expect(g.shape == (a.shape[0],), "predictive pmf for %d groups has shape %r", len(ns), g.shape)
        for i in range(len(ns)):
            w = sut(sut(getattr(F, c["fn"] + "_predictive"), distribution=D.Dirichlet(np.array(post.alpha[i])), n=int(ns[i])).dist.pmf, outs[i])
            expect(same(g[i], w, 1e-9), "group %d of %r trials: mass %r, alone %r", i, c["ns"], g[i], w)
    rec.nontrivial(a.shape[0] > 1)


@st.composite
def multicase(draw):
    g, k = draw(st.integers(1, 4)), draw(st.integers(2, 4))
    n = draw(st.integers(1, 5))
    out = [0] * k
    for _ in range(n):
        out[draw(st.integers(0, k - 1))] += 1
    return {"p": [draw(gen.simplex(k)) for _ in range(g)], "n": n, "x": out}


@sub("C07", "multinomial-batch", multicase(), quick=60, rule="several rows")
def multibatch(c, rec):
    import conjugate.distributions as D

    p = np.array(c["p"])
    g = np.asarray(sut(D.Multinomial(c["n"], p).dist.pmf, np.array(c["x"])))
    expect(g.shape == (len(p),), "pmf has shape %r", g.shape)
    for i in range(len(p)):
        w = sut(D.Multinomial(c["n"], p[i]).dist.pmf, np.array(c["x"]))
        expect(same(g[i], w, 1e-9), "row %d: %r alone %r", i, g[i], w)
    rec.nontrivial(len(p) > 1)
