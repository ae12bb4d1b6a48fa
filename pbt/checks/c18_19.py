"""C18: plotted curves are the distribution's values on the chosen bounds. C19: bounds, labels and colours."""
import contextlib

import mpmath as mp
import numpy as np
from hypothesis import strategies as st

from pbt import dists, gen, ref
from pbt.core import expect, fail, sub, sut
from pbt.ref import M, close

NOCDF = ("BetaGeometric", "CompoundGamma")  # these offer no cumulative function
COLORS = ["red", "tab:blue", "k", "#12ab9f", "C0", "C1", "C3", "C7", "0.4", "gold", "C12", "#12345678", [0.1, 0.5, 0.25], [1.0, 0.5, 0.25, 0.375]]


@contextlib.contextmanager
def figure(polar=False, two=True):
    import matplotlib.pyplot as plt

    plt.close("all")
    fig = plt.figure()
    kw = {"projection": "polar"} if polar else {}
    axes = [fig.add_subplot(1, 2, 1, **kw), fig.add_subplot(1, 2, 2, **kw)]
    import matplotlib

    rc = dict.copy(matplotlib.rcParams)
    figs, mode = plt.get_fignums(), plt.isinteractive()
    try:
        yield fig, axes
        now = dict.copy(matplotlib.rcParams)
        changed = sorted(k for k in set(rc) | set(now) if rc.get(k) != now.get(k))
        expect(not changed, "plotting changed the global plot settings %s", changed)
        expect(plt.get_fignums() == figs and plt.isinteractive() == mode, "plotting opened or closed figures: %r before, %r after", figs, plt.get_fignums())
    finally:
        plt.close("all")


# ------------------------------------------------------------------------------- cases
@st.composite
def params_st(draw, d, nmax=5):
    """scalar parameters over the whole domain, or vectors (some parameters may stay scalar)"""
    n = draw(st.one_of(st.integers(0, nmax), st.integers(0, nmax), st.sampled_from([0, 0, 1, nmax, 13, 26] if nmax > 3 else [0])))
    if n == 0:
        return {"n": 0, "p": d.fix({k: draw(s) for k, s in d.params.items()})}
    p = {}
    names = list(d.vec)
    vecs = draw(st.sets(st.sampled_from(names), min_size=1))
    for k in names:
        lo, hi = d.vec[k][:2]
        s = st.just(lo) if lo == hi else st.integers(lo, hi) if len(d.vec[k]) > 2 else st.one_of(gen.num(lo, hi), gen.num(lo, hi), st.sampled_from([lo, hi]))
        p[k] = draw(st.lists(s, min_size=n, max_size=n)) if k in vecs else draw(s)
    return {"n": n, "p": p, "form": draw(st.sampled_from(["array", "array", "series"]))}


def make(d, c):
    if c["n"] == 0:
        return d.make(c["p"])
    import pandas as pd

    cv = np.array if c["form"] == "array" else pd.Series
    return d.make({k: cv(v) if isinstance(v, list) else v for k, v in c["p"].items()})


def scalar(d, c, j):
    """parameters of curve j"""
    return {k: v[j] if isinstance(v, list) else v for k, v in c["p"].items()}


def bounds_st(d):
    if d.continuous:
        w = st.one_of(gen.pos(0.01, 100), gen.pos(0.5, 10), gen.pos(0.01, 100), gen.pos(1e-6, 1e9))
        return st.tuples(st.one_of(gen.num(-30, 30), gen.num(-30, 30), st.just(0.0)), w).map(lambda t: [t[0], t[0] + t[1]])
    few = st.integers(0, 60)
    return st.tuples(st.one_of(st.integers(-3, 40), st.integers(-3, 40), st.just(0), st.integers(0, 2000)),
                     st.integers(0, 79).flatmap(lambda i: st.sampled_from([1023, 3000]) if i == 79 else st.integers(0, 300) if i > 70 else few)).map(lambda t: [t[0], t[0] + t[1]])


@st.composite
def case_st(draw):
    d = draw(st.sampled_from(dists.DISTS))
    c = draw(params_st(d))
    c["key"] = d.key
    c["cdf"] = d.name not in NOCDF and draw(st.booleans())
    c["conditional"] = not d.continuous and draw(st.booleans())
    c["bounds"] = draw(bounds_st(d))
    c["how"] = draw(st.sampled_from(["set", "set", "upper-only", "default"]))
    c["axes"] = draw(st.sampled_from(["given", "given", "current"]))
    c["polar"] = draw(st.sampled_from([False, False, True]))
    c["on"] = draw(st.integers(0, 1))
    c["before"] = draw(st.one_of(st.lists(st.lists(gen.real(50), min_size=2, max_size=4), max_size=2), st.just([[0.0, 1.0]] * 12)))
    c["twice"] = draw(st.booleans())
    c["npint"] = draw(st.booleans())
    return c


def natural(d, c):
    """default bounds documented for the family, None where there is no upper one"""
    mx = lambda v: max(v) if isinstance(v, list) else v
    mn = lambda v: min(v) if isinstance(v, list) else v
    p = c["p"]
    if d.name == "Beta":
        return 0, 1
    if d.name in ("Binomial", "BetaBinomial", "BetaNegativeBinomial"):
        return 0, mx(p["n"])
    if d.name == "Hypergeometric":
        return 0, mx(p["N"])
    if d.name == "Uniform":
        return mn(p["low"]), mx(p["high"])
    if d.name == "VonMises":
        return -np.pi, np.pi
    return 0, None


def snap(line):
    return (np.array(line.get_xdata(), float), np.array(line.get_ydata(), float), line.get_label(), line.get_color())


def unchanged(a, b):
    return np.array_equal(a[0], b[0], equal_nan=True) and np.array_equal(a[1], b[1], equal_nan=True) and a[2] == b[2] and a[3] == b[3]


def xy(line):
    return np.array(line.get_xdata(), float), np.array(line.get_ydata(), float)


def same(got, want, rel=1e-9):
    """equal up to rounding; both may be infinite or undefined"""
    with np.errstate(all="ignore"):
        return np.all((got == want) | (np.isnan(got) & np.isnan(want)) | (np.isfinite(want) & (np.abs(got - want) <= rel * np.abs(want) + 1e-300)))


def check_conditional_cdf(what, f, x, y, lo, rec):
    """cumulative probability given the bounds; the listed finding divides by the sum of the cumulative values instead"""
    with np.errstate(all="ignore"):
        F, below = np.array(f(x), float), float(f(lo - 1))
        span = F[-1] - below
        want = (F - below) / span
        if span > 1e-6 and np.all(np.abs(y - want) <= 1e-8):
            return
        if np.all(np.isfinite(y)) and same(y, F / F.sum(), 1e-8):
            if span > 1e-6:
                rec.known("conditional-cdf-of-sums", "%s: conditional cumulative curve %r, should be %r" % (what, y[:5], want[:5]))
            return
    if span > 1e-6:
        i = int(np.argmax(~np.isclose(y, want, rtol=0, atol=1e-8)))
        fail("%s: conditional cumulative curve at %r is %r, should be %r" % (what, x[i], y[i], want[i]))


def check_curve(d, c, j, line, lo, hi, rec):
    p = scalar(d, c, j)
    x, y = xy(line)
    what = "%s%r curve %d" % (d.key, p, j)
    expect(x.shape == y.shape and x.ndim == 1, "%s: shapes %r, %r", what, x.shape, y.shape)
    expect(len(x) and abs(x[0] - lo) <= 1e-12 * max(1, abs(lo)) and abs(x[-1] - hi) <= 1e-12 * max(1, abs(hi)), "%s runs from %r to %r, bounds are %r to %r", what, x[0] if len(x) else None, x[-1] if len(x) else None, lo, hi)
    if d.continuous:
        expect(len(x) > 1 and np.all(np.diff(x) > 0), "%s: abscissae do not increase from %r to %r", what, lo, hi)
    else:
        expect(np.array_equal(x, np.arange(lo, hi + 1)), "%s: abscissae %s are not the integers %r..%r", what, x[:5], lo, hi)
    dist = d.make(p).dist
    f = getattr(dist, "cdf" if c["cdf"] else d.pm)
    with np.errstate(all="ignore"):
        want = np.array(f(x), float)
    if c["conditional"] and c["cdf"]:
        check_conditional_cdf(what, f, x, y, lo, rec)
        return np.ptp(y) > 0
    if c["conditional"]:
        tot = want.sum()
        if not tot > 1e-250:
            return False
        expect(abs(y.sum() - 1) < 1e-9, "%s: conditional masses sum to %r", what, y.sum())
        want = want / tot
    expect(same(y, want, 1e-8), "%s at %r is %r, distribution gives %r", what, *(lambda i: (x[i], y[i], want[i]))(int(np.argmax(~np.isclose(y, want, rtol=1e-8, atol=0, equal_nan=True)))))
    # against the documented law
    if not c["cdf"] and not c["conditional"]:
        for i in {0, len(x) // 3, (2 * len(x)) // 3, len(x) - 1}:
            if d.name == "VonMises" and abs(x[i] - p["mu"]) > 3.14 or not np.isfinite(y[i]):
                continue
            edge = d.continuous and (y[i] == 0 or any(abs(x[i] - e) < 1e-9 for e in [0, 1] + [v for v in p.values()]))
            lw = d.logp(float(x[i]), p)
            if edge:
                continue
            w = mp.exp(lw) if lw != -mp.inf else M(0)
            expect(abs(M(float(y[i])) - w) <= 1e-6 * w * (1 + abs(lw) if lw != -mp.inf else 1) + M(1e-250), "%s at %r is %r, documented law gives %s", what, x[i], y[i], mp.nstr(w, 12))
    return np.ptp(y) > 0 if len(y) > 1 else True


@sub("C18", "curves", case_st(), quick=600, thorough=12000, rule="a curve that is not constant over at least two points")
def curves(c, rec):
    import matplotlib.pyplot as plt

    d = dists.BY_KEY[c["key"]]
    o = sut(make, d, c)
    lo, hi = natural(d, c)
    if c["how"] == "set" or (hi is None and c["how"] == "default") or c.get("form") == "series":
        lo, hi = c["bounds"]
        cv = (lambda v: np.int64(v) if isinstance(v, int) else np.float64(v)) if c["npint"] else (lambda v: v)
        sut(o.set_bounds, cv(lo), cv(hi))
    elif c["how"] == "upper-only":
        hi = lo + abs(c["bounds"][1]) + 1
        sut(o.set_max_value, hi)
    name = "plot_cdf" if c["cdf"] else "plot_" + d.pm
    kw = {"conditional": True} if c["conditional"] else {}
    with figure(c["polar"]) as (fig, axes):
        ax, other = axes[c["on"]], axes[1 - c["on"]]
        for a in axes:
            for v in c["before"]:
                a.plot(range(len(v)), v, label="b%d" % len(v))
        if c["axes"] == "given":
            plt.sca(other)
            kw["ax"] = ax
        else:
            plt.sca(ax)
        rounds = 2 if c["twice"] else 1
        nt = False
        for r in range(rounds):
            before, lines = [snap(l) for l in ax.lines], list(ax.lines)
            ob = [snap(l) for l in other.lines]
            got = sut(getattr(o, name), **kw)
            expect(got is ax, "%s returned %r, not the axes it was %s", name, got, c["axes"])
            expect(len(fig.axes) == 2 and plt.get_fignums() == [fig.number], "%s made other axes or figures", name)
            expect(list(ax.lines)[: len(lines)] == lines and all(unchanged(snap(l), b) for l, b in zip(lines, before)), "%s changed curves that were already there", name)
            expect([len(a) for a in ob] == [len(snap(l)) for l in other.lines] and all(unchanged(snap(l), b) for l, b in zip(other.lines, ob)), "%s drew on other axes", name)
            new = list(ax.lines)[len(lines):]
            expect(len(new) == max(c["n"], 1), "%s drew %d curves for %d parameter sets", name, len(new), max(c["n"], 1))
            for j, line in enumerate(new):
                nt = check_curve(d, c, j, line, lo, hi, rec) or nt
    rec.nontrivial(nt)
    rec.label(d.key, name + ("-conditional" if c["conditional"] else ""), "polar" if c["polar"] else "cartesian", c["axes"], "scalar" if not c["n"] else "vector")


# ------------------------------------------------------------------ discrete curves over thousands of values
@st.composite
def wide_st(draw):
    d = draw(st.sampled_from([d for d in dists.DISTS if not d.continuous]))
    c = draw(params_st(d, nmax=2))
    if c["n"] > 2:
        c = draw(params_st(d, nmax=0))
    c["key"] = d.key
    c["cdf"] = d.name not in NOCDF and draw(st.booleans())
    c["conditional"] = not c["cdf"] and draw(st.booleans())
    lo = draw(st.sampled_from([0, 0, 1, -5, 37, 1000, 50000]))
    c["bounds"] = [lo, lo + draw(st.one_of(st.integers(1000, 9000), st.sampled_from([999, 1000, 4095, 4096, 5001, 10000])))]
    return c


@sub("C18", "wide-ranges", wide_st(), quick=6, thorough=200, rule="always")
def wide(c, rec):
    d = dists.BY_KEY[c["key"]]
    o = sut(make, d, c)
    lo, hi = c["bounds"]
    sut(o.set_bounds, lo, hi)
    with figure() as (fig, axes):
        axes[0].set_xticks = lambda *a, **k: []  # matplotlib would take seconds to make a tick for each value
        sut(getattr(o, "plot_cdf" if c["cdf"] else "plot_" + d.pm), ax=axes[0], **({"conditional": True} if c["conditional"] else {}))
        new = list(axes[0].lines)
        expect(len(new) == max(c["n"], 1), "drew %d curves for %d parameter sets", len(new), max(c["n"], 1))
        for j, line in enumerate(new):
            check_curve(d, c, j, line, lo, hi, rec)
    rec.nontrivial()
    rec.label(d.key, "cdf" if c["cdf"] else "pmf")


@st.composite
def dir_st(draw):
    k = draw(st.integers(2, 5))
    return {"alpha": draw(st.lists(gen.num(2, 30), min_size=k, max_size=k)), "seed": draw(gen.SEEDS), "samples": draw(st.sampled_from([200, 1000])), "given": draw(st.booleans()),
            "before": draw(st.booleans()), "bounds": draw(st.one_of(st.none(), st.tuples(gen.num(-0.5, 0.1), gen.num(0.6, 2))))}


@sub("C18", "dirichlet-curves", dir_st(), quick=60, rule="always")
def dirichlet(c, rec):
    """one density estimate per category, of that category's marginal"""
    import matplotlib.pyplot as plt

    import conjugate.distributions as D

    o = D.Dirichlet(np.array(c["alpha"]))
    lo, hi = c.get("bounds") or (0, 1)
    if c.get("bounds"):
        o.set_bounds(lo, hi)
    tot = sum(c["alpha"])
    with figure() as (fig, axes):
        ax = axes[0]
        kw = {}
        if c["before"]:
            ax.plot([0, 1], [1, 2])
        if c["given"]:
            kw["ax"] = ax
        else:
            plt.sca(ax)
        lines = list(ax.lines)
        before = [snap(l) for l in lines]
        got = sut(o.plot_pdf, samples=c["samples"], random_state=np.random.RandomState(c["seed"] % 2**32), **kw)
        expect(got is ax and list(ax.lines)[: len(lines)] == lines and all(unchanged(snap(l), b) for l, b in zip(lines, before)), "axes or existing curves changed")
        new = list(ax.lines)[len(lines):]
        expect(len(new) == len(c["alpha"]), "%d curves for %d categories", len(new), len(c["alpha"]))
        for j, line in enumerate(new):
            x, y = xy(line)
            expect(abs(x[0] - lo) < 1e-12 and abs(x[-1] - hi) < 1e-12 and np.all(np.diff(x) > 0), "abscissae of curve %d run from %r to %r, bounds are %r to %r", j, x[0], x[-1], lo, hi)
            if hi < 0.99 or lo > 0:  # part of the mass may lie outside
                continue
            a = c["alpha"][j]
            m = a / tot
            sd = (m * (1 - m) / (tot + 1)) ** 0.5
            area = np.trapezoid(y, x) if hasattr(np, "trapezoid") else np.trapz(y, x)
            mean = (np.trapezoid if hasattr(np, "trapezoid") else np.trapz)(x * y, x) / area
            expect(0.6 < area < 1.05, "curve %d has area %r", j, area)
            expect(abs(mean - m) < 8 * sd / c["samples"] ** 0.5 + 0.25 * sd, "curve %d is centred at %r, category mean is %r (sd %r)", j, mean, m, sd)
    rec.nontrivial()


# ------------------------------------------------------------------------------- C19
@st.composite
def hist_st(draw):
    objs = []
    for _ in range(draw(st.integers(1, 3))):
        d = draw(st.sampled_from(dists.DISTS))
        c = draw(params_st(d, 2))
        c["form"] = "array"
        c["key"] = d.key
        objs.append(c)
    if draw(st.booleans()):
        objs.append(dict(objs[0]))  # an equal distribution is another object
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        i = draw(st.integers(0, len(objs) - 1))
        d = dists.BY_KEY[objs[i]["key"]]
        val = gen.num(-30, 60) if d.continuous else st.integers(-3, 40)
        kind = draw(st.sampled_from(["min", "max", "both", "min=", "max=", "chain", "plot", "plot-cdf", "eval", "slice", "read"]))
        op = [kind, i]
        if kind in ("min", "max", "min=", "max="):
            op.append(draw(val))
        elif kind in ("both", "chain"):
            op += [draw(val), draw(val)]
        ops.append(op)
    return {"objs": objs, "ops": ops}


UNSET = object()


def bounds_of(o, i, exp):
    lo, hi = exp[i]
    expect(sut(lambda: o.min_value) == lo, "object %d: lower bound is %r, should be %r", i, o.min_value, lo)
    try:
        got = o.max_value
    except ValueError:
        got = UNSET
    except Exception as e:  # noqa
        expect(False, "reading the upper bound raised %s", type(e).__name__)
    if hi is UNSET:
        expect(got is UNSET, "object %d: upper bound %r was never set", i, got)
    else:
        expect(got is not UNSET and got == hi, "object %d: upper bound is %r, should be %r", i, None if got is UNSET else got, hi)


@sub("C19", "bounds-history", hist_st(), quick=400, thorough=10000, rule="a bound was set and there is a later operation")
def bounds_history(c, rec):
    objs, exp = [], []
    for s in c["objs"]:
        d = dists.BY_KEY[s["key"]]
        objs.append(sut(make, d, s))
        lo, hi = natural(d, s)
        exp.append([lo, UNSET if hi is None else hi])
    for i, o in enumerate(objs):
        bounds_of(o, i, exp)
    setter = False
    with figure() as (fig, axes):
        ax = axes[0]
        for op in c["ops"]:
            kind, i = op[0], op[1]
            o, s = objs[i], c["objs"][i]
            d = dists.BY_KEY[s["key"]]
            if kind == "min":
                expect(sut(o.set_min_value, op[2]) is o, "set_min_value does not chain")
                exp[i][0] = op[2]
            elif kind == "max":
                expect(sut(o.set_max_value, op[2]) is o, "set_max_value does not chain")
                exp[i][1] = op[2]
            elif kind == "both":
                expect(sut(o.set_bounds, op[2], op[3]) is o, "set_bounds does not chain")
                exp[i] = [op[2], op[3]]
            elif kind == "min=":
                o.min_value = op[2]
                exp[i][0] = op[2]
            elif kind == "max=":
                o.max_value = op[2]
                exp[i][1] = op[2]
            elif kind == "chain":
                expect(sut(lambda: o.set_max_value(op[2]).set_min_value(op[3]).set_bounds(lower=op[2], upper=op[3]).set_max_value(op[3])) is o, "setters do not chain")
                exp[i] = [op[2], op[3]]
            elif kind in ("plot", "plot-cdf"):
                name = "plot_cdf" if kind == "plot-cdf" and d.name not in NOCDF else "plot_" + d.pm
                n0 = len(ax.lines)
                if exp[i][1] is UNSET:
                    try:
                        getattr(o, name)(ax=ax)
                        expect(False, "%s of %s drew without an upper bound", name, s["key"])
                    except ValueError:
                        pass
                    expect(len(ax.lines) == n0, "%s drew %d curves before raising", name, len(ax.lines) - n0)
                elif exp[i][0] < exp[i][1] if d.continuous else exp[i][0] <= exp[i][1]:
                    sut(getattr(o, name), ax=ax)
                    for line in list(ax.lines)[n0:]:
                        x = xy(line)[0]
                        expect(abs(x[0] - exp[i][0]) < 1e-9 and abs(x[-1] - exp[i][1]) < 1e-9, "curve runs from %r to %r, bounds are %r", x[0], x[-1], exp[i])
            elif kind == "eval":
                with np.errstate(all="ignore"):
                    sut(lambda: getattr(o.dist, d.pm)(1))
                    sut(lambda: o.params)
                    sut(repr, o)
            elif kind == "slice" and s["n"]:
                part = sut(lambda: o[0])
                sut(part.set_bounds, -77, 99)
            if kind in ("min", "max", "both", "min=", "max=", "chain"):
                setter = True
            for k, q in enumerate(objs):
                bounds_of(q, k, exp)
    rec.nontrivial(setter and len(c["ops"]) > 1)
    rec.label(*["op:" + op[0] for op in c["ops"]])


LABELS = st.sampled_from(["prior", "x", "", "a b", "posterior 1", "α", "0", "{}", "%d"]) | st.text("abc _{}%", max_size=6)


@st.composite
def style_st(draw):
    d = draw(st.sampled_from(dists.DISTS + ["dirichlet"]))
    if d == "dirichlet":
        n = draw(st.integers(2, 4))
        c = {"key": "dirichlet", "alpha": draw(st.lists(gen.num(1, 9), min_size=n, max_size=n)), "n": n, "cdf": False}
    else:
        c = draw(params_st(d, 6))
        c["form"] = "array"
        c["key"] = d.key
        c["cdf"] = d.name not in NOCDF and draw(st.booleans())
        c["bounds"] = draw(bounds_st(d))
        c["conditional"] = not d.continuous and draw(st.booleans())
        n = max(1, c["n"])
    c["label"] = draw(st.one_of(st.none(), st.tuples(st.just("str"), LABELS), st.tuples(st.just("func"), LABELS, st.integers(0, 2)),
                                st.tuples(st.sampled_from(["list", "tuple", "array", "series"]), st.lists(LABELS, min_size=n, max_size=n))))
    named = [v for v in COLORS if isinstance(v, str)]
    c["color"] = draw(st.one_of(st.none(), st.tuples(st.just("one"), st.sampled_from(COLORS)),
                                st.tuples(st.sampled_from(["list", "list", "tuple"]), st.lists(st.sampled_from(COLORS), min_size=n, max_size=n)),
                                st.tuples(st.just("array"), st.lists(st.sampled_from(named), min_size=n, max_size=n))))
    c["before"] = draw(st.integers(0, 2))
    c["lw"] = draw(st.one_of(st.none(), gen.num(0.5, 4)))
    c["alpha_"] = draw(st.one_of(st.none(), gen.num(0.1, 1)))
    c["mark"] = draw(st.sampled_from([None, "o-", "s--", "x:", "."]))
    c["polar"] = draw(st.sampled_from([False, False, False, True]))
    c["current"] = draw(st.booleans())
    return c


def seq(kind, v):
    import pandas as pd

    return {"list": list, "tuple": tuple, "array": np.array, "series": lambda q: pd.Series(q, index=[f"r{i}" for i in range(len(q))])}[kind](v)


@sub("C19", "labels-and-colours", style_st(), quick=500, thorough=10000, rule="a label or colour was requested")
def styles(c, rec):
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgba

    import conjugate.distributions as D

    n = max(1, c["n"])
    kw = {}
    if c["key"] == "dirichlet":
        o, name = D.Dirichlet(np.array(c["alpha"])), "plot_pdf"
        kw["samples"] = 60
        kw["random_state"] = 3
    else:
        d = dists.BY_KEY[c["key"]]
        o = sut(make, d, c)
        o.set_bounds(*c["bounds"])
        name = "plot_cdf" if c["cdf"] else "plot_" + d.pm
        if c["conditional"]:
            kw["conditional"] = True
    want = None
    if c["label"]:
        k, v = c["label"][:2]
        if k == "str":
            kw["label"] = v
            want = [v] if n == 1 else ["%s %d" % (v, i) for i in range(1, n + 1)]
        elif k == "func":
            form = c["label"][2]
            fn = [lambda i: v + str(i), lambda i: "%s-%d" % (v.replace("%", ""), i * i + 1), lambda i: "abcdefgh"[i % 8] * (1 + i // 8) + v][form]
            kw["label"] = fn
            want = [fn(i) for i in range(n)]
        else:
            kw["label"] = seq(k, v)
            want = list(v)
    colors = None
    if c["color"]:
        k, cv = c["color"]
        tup = lambda v: tuple(v) if isinstance(v, list) else v  # a colour given by its components
        kw["color"] = tup(cv) if k == "one" else seq(k, [tup(v) for v in cv])
        colors = [tup(cv)] * n if k == "one" else [tup(v) for v in cv]
    passed = dict(kw)
    opts = {"linewidth": c.get("lw"), "alpha": c.get("alpha_")}
    kw.update({k: v for k, v in opts.items() if v is not None})
    discrete = c["key"] != "dirichlet" and not dists.BY_KEY[c["key"]].continuous
    if c.get("mark") and discrete:
        kw["mark"] = c["mark"]
    with figure(c["polar"]) as (fig, axes):
        ax = axes[0]
        for i in range(c["before"]):
            ax.plot([0, 1], [i, 2], label="b%d" % i)
        old = [snap(l) for l in ax.lines]
        if c["current"]:
            plt.sca(ax)
        else:
            kw["ax"] = ax
        with np.errstate(all="ignore"):
            sut(getattr(o, name), **kw)
        new = list(ax.lines)[c["before"]:]
        expect(len(new) == n, "%d curves for %d parameter sets", len(new), n)
        expect(all(unchanged(snap(l), b) for l, b in zip(ax.lines, old)), "labelled plot changed existing curves")
        if want is not None:
            got = [l.get_label() for l in new]
            # matplotlib replaces an empty label by a hidden one
            expect(all(g == w or (w in ("", "None") and str(g).startswith("_")) for g, w in zip(got, want)), "labels %r give curve labels %r, should be %r", passed["label"], got, want)
        if colors is not None:
            got = [to_rgba(l.get_color()) for l in new]
            expect(got == [to_rgba(q) for q in colors], "colours %r give curve colours %r", passed["color"], got)
        for l in new:
            for k, v in opts.items():
                expect(v is None or getattr(l, "get_" + k)() == v, "option %s=%r gave %r", k, v, getattr(l, "get_" + k)())
            if kw.get("mark"):
                m = kw["mark"]
                expect(l.get_marker() == m[0] and l.get_linestyle() == (m[1:] or "None"), "mark %r gave %r%r", m, l.get_marker(), l.get_linestyle())
            if discrete and not kw.get("mark"):
                expect(l.get_marker() == "o" and l.get_linestyle() == "-", "the default mark is %r%r", l.get_marker(), l.get_linestyle())
    rec.nontrivial(want is not None or colors is not None)
    rec.label(c["key"], "label:%s" % (c["label"][0] if c["label"] else None), "color:%s" % (c["color"][0] if c["color"] else None), "n=%d" % n)
