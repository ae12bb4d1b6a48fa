"""C17: models are pure and distributions carry no hidden state."""
import copy
import dataclasses
import random
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import calls, dists, gen, models, mvmodels as mv, vec
from pbt.checks.c07 import args_case, build, full_shape, value
from pbt.core import expect, fail, sub, sut


def raw(v):
    """a value that can be compared bit for bit"""
    if isinstance(v, np.ndarray):
        return ("array", v.dtype.str, v.shape, v.tobytes(), v.flags.writeable)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(raw(x) for x in v)
    return (type(v).__name__, repr(v))


def fields(o):
    if dataclasses.is_dataclass(o):
        return {f.name: getattr(o, f.name) for f in dataclasses.fields(o)}
    return {"v": o.v}


def bits(o):
    return {k: raw(v) for k, v in fields(o).items()}


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def same_result(a, b):
    fa, fb = fields(a), fields(b)
    return set(fa) == set(fb) and all((fa[k] is None and fb[k] is None) or same(fa[k], fb[k]) for k in fa)


def rng_state():
    """the state of the process that computing must leave alone: random generators, floating-point error handling, warning filters"""
    s = np.random.get_state()
    return s[1].tobytes(), s[2:], random.getstate(), sorted(np.geterr().items()), list(warnings.filters), sorted(np.get_printoptions().items(), key=str)


# ------------------------------------------------------------------ one call on arrays
@st.composite
def opcase(draw, c):
    other = draw(st.sampled_from(calls.CALLS))
    return {"a": draw(args_case({**{"f." + k: d for k, d in c.fields.items()}, **c.args})), "other": other.name,
            "b": draw(args_case({**{"f." + k: d for k, d in other.fields.items()}, **other.args})), "edit": draw(st.integers(0, 10**6)), "seed": draw(gen.SEEDS),
            "empty": draw(st.sampled_from([None, None, None, "scalar", "array"]))}


def split(a):
    return {k[2:]: build(v) for k, v in a.items() if k.startswith("f.")}, {k: build(v) for k, v in a.items() if not k.startswith("f.")}


def nodata(m):
    """the names of the statistics of an empty data set, where every one of them is zero"""
    try:
        st0 = m.stats([], {k: 1 for k in m.known})
        return set(st0) if all(v == 0 for v in st0.values()) else set()
    except (ValueError, IndexError, TypeError):
        return set()


NODATA = {m.key: nodata(m) for m in models.MODELS}
NODATA["uniform_pareto-Pareto"] = {"x_max", "n"}


def purity(c):
    def check(case, rec):
        fs, args = split(case["a"])
        if case["empty"] and NODATA.get(c.name[6:]):
            for k in NODATA[c.name[6:]] & set(args):  # nothing observed: every statistic is zero
                args[k] = np.zeros(np.shape(args[k]), np.asarray(args[k]).dtype) if case["empty"] == "array" else 0
            rec.label("no data")
        obj = c.make(fs)
        before = {k: raw(v) for k, v in args.items()}
        obefore, ident = bits(obj), {k: id(v) for k, v in fields(obj).items()}
        rng = rng_state()
        r1 = sut(c, obj, args)
        expect(rng_state() == rng, "%s used the global random state or changed a setting of the process", c.name)
        keep = {k: np.array(v, copy=True) for k, v in fields(r1).items()}

        def inputs_unchanged(when):
            for k, v in args.items():
                expect(raw(v) == before[k], "%s changed its argument %s %s", c.name, k, when)
            expect(bits(obj) == obefore and {k: id(v) for k, v in fields(obj).items()} == ident, "%s changed the %s it was given %s", c.name, c.cls, when)

        inputs_unchanged("")
        # other computations and another random state in between change nothing
        o = calls.BY_NAME[case["other"]]
        ofs, oargs = split(case["b"])
        oobj = o.make(ofs)
        sut(o, oobj, oargs)
        np.random.seed(case["seed"])
        r2 = sut(c, obj, args)
        expect(type(r2) is type(r1) and same_result(r1, r2), "%s called again gives %r, first %r", c.name, r2, r1)
        expect(all(same(keep[k], v) for k, v in fields(r1).items()), "a later call changed the earlier result of %s", c.name)
        inputs_unchanged("(second call)")
        # no storage shared between a posterior and its inputs
        if c.posterior:
            for k, v in fields(r1).items():
                if not isinstance(v, np.ndarray) or k in c.shared:
                    continue
                for n, a in list(args.items()) + list(fields(obj).items()):
                    expect(not (isinstance(a, np.ndarray) and np.shares_memory(v, a)), "%s: %s of the posterior shares storage with %s", c.name, k, n)
                v[...] = -77  # writing into the posterior
            inputs_unchanged("when its posterior was edited")
            r3 = sut(c, obj, args)
            expect(all(k in c.shared or same(keep[k], v) for k, v in fields(r3).items()), "%s after editing an earlier posterior gives %r, before %r", c.name, r3, keep)
            r1 = r3
        # editing an input in place: earlier results stay, the next call sees the new value
        edited = None
        for n in sorted(list(fs) + list(args)):
            for d, dom in ((fs, c.fields), (args, c.args)):
                v = d.get(n)
                if isinstance(v, np.ndarray) and v.flags.writeable and v.size and edited is None and case["edit"] % 3:
                    lo, hi = dom[n][0], dom[n][1]
                    j = case["edit"] % v.size
                    v.flat[j] = lo if v.flat[j] != lo else hi
                    edited = n
        if edited and c.posterior:
            expect(all(k in c.shared or same(keep[k], v) for k, v in fields(r1).items()), "editing %s in place changed an earlier posterior of %s", edited, c.name)
        if edited:
            r4 = sut(c, obj, args)
            cp = lambda d: {k: (np.array(v, copy=True) if isinstance(v, np.ndarray) else v) for k, v in d.items()}
            r5 = sut(c, c.make(cp(fs)), cp(args))
            expect(same_result(r4, r5), "%s after %s was edited in place gives %r, a fresh problem with the same values %r", c.name, edited, r4, r5)
            rec.label("edited")
        rec.nontrivial(any(isinstance(v, np.ndarray) for v in list(fs.values()) + list(args.values())))

    return check


for _c in calls.CALLS:
    sub("C17", "pure-" + _c.name.replace(":", "-"), opcase(_c), quick=50, thorough=1500, rule="array arguments")(purity(_c))


# ------------------------------------------------------------------ long histories
@st.composite
def history(draw):
    """a pool of problems and the order in which they are solved"""
    pool = []
    for _ in range(draw(st.integers(2, 5))):
        c = draw(st.sampled_from(calls.CALLS))
        dom = {**{"f." + k: d for k, d in c.fields.items()}, **c.args}
        pool.append({"c": c.name, "v": {a: draw(value(d)) for a, d in sorted(dom.items())}})
        for _ in range(draw(st.integers(0, 2))):  # near duplicates: same computation, one value changed
            v = dict(pool[-1]["v"])
            a = draw(st.sampled_from(sorted(dom)))
            v[a] = draw(value(dom[a]))
            pool.append({"c": c.name, "v": v})
    order = draw(st.lists(st.tuples(st.integers(0, len(pool) - 1), st.sampled_from(["new", "new", "same", "copy", "scalars", "reassign"])).map(list), min_size=4, max_size=25))
    return {"pool": pool, "order": order}


def solve(p):
    c = calls.BY_NAME[p["c"]]
    return sut(c, c.make({k[2:]: v for k, v in p["v"].items() if k.startswith("f.")}), {k: v for k, v in p["v"].items() if not k.startswith("f.")})


@sub("C17", "call-order", history(), quick=500, thorough=20000, rule="a problem is solved more than once", shards=2)
def order(c, rec):
    """results do not depend on which problems were solved before, on reused memory addresses or on reused objects"""
    pool = c["pool"]
    first, objs = {}, {}
    for i, how in c["order"]:
        p = pool[i]
        k = calls.BY_NAME[p["c"]]
        fv = {a[2:]: v for a, v in p["v"].items() if a.startswith("f.")}
        av = {a: v for a, v in p["v"].items() if not a.startswith("f.")}
        if how == "same" and i in objs:
            o = objs[i]
        elif how == "copy" and i in objs:
            o = copy.deepcopy(objs[i])
        elif how == "reassign" and any(pool[j]["c"] == p["c"] for j in objs):
            j = next(j for j in objs if pool[j]["c"] == p["c"])
            o = objs.pop(j)
            for a, v in fv.items():
                setattr(o, a, v)
            objs[i] = o
        else:
            o = k.make(fv)
            objs[i] = o
        if how == "scalars":
            del objs[i]
        r = sut(k, o, av)
        vals = {f: np.array(getattr(r, f), dtype=float) for f in k.out}
        del r
        if i in first:
            for f in k.out:
                expect(same(first[i][f], vals[f]), "%s on %r: %s = %r this time (%s object), %r the first time", p["c"], p["v"], f, vals[f].tolist(), how, first[i][f].tolist())
            rec.nontrivial()
        first.setdefault(i, vals)
    # and alone, once more
    for i in first:
        r = solve(pool[i])
        for f in calls.BY_NAME[pool[i]["c"]].out:
            expect(same(first[i][f], getattr(r, f)), "%s on %r: %s = %r at the end, %r in the history", pool[i]["c"], pool[i]["v"], f, getattr(r, f), first[i][f].tolist())


# ------------------------------------------------------------------ the probability object follows the parameters
@st.composite
def reflect(draw, d):
    n = draw(st.integers(1, 3))
    one = lambda k: draw(value(d.vec[k]))
    init = {k: ([one(k) for _ in range(n)] if draw(st.booleans()) else one(k)) for k in sorted(d.vec)}
    steps = []
    for _ in range(draw(st.integers(2, 7))):
        k = draw(st.sampled_from(sorted(d.vec)))
        steps.append(draw(st.one_of(
            st.just(["eval"]),
            st.builds(lambda v: ["set", k, v], value(d.vec[k])),
            st.builds(lambda v: ["setarr", k, v], gen.vec(value(d.vec[k]), n)),
            st.builds(lambda j, v: ["edit", k, j, v], st.integers(0, n - 1), value(d.vec[k])),
            st.just(["copy"]), st.just(["replace"]), st.just(["bounds"]), st.just(["sample"]),
            st.builds(lambda j: ["slice", j], st.integers(0, n - 1)),
        )))
    return {"init": init, "n": n, "steps": steps + [["eval"]], "x": [draw(d.x) for _ in range(2)], "hold": draw(st.booleans())}


def arrv(v, dom):
    return np.array(v, dtype=int if len(dom) > 2 else float)


def refl(d):
    def check(c, rec):
        n = c["n"]
        val = {k: (arrv(v, d.vec[k]) if isinstance(v, list) else v) for k, v in c["init"].items()}
        obj = d.make(val)
        model = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in val.items()}
        held = []
        xs = np.array(c["x"], dtype=float if d.continuous else int)[:, None]

        def look(o, m, what):
            fresh = d.make({k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in m.items()})
            for meth in d.methods:
                if meth == "ppf":
                    continue
                a = () if meth in ("mean", "var") else (xs,)
                state = rng_state()
                g, w = sut(lambda: getattr(o.dist, meth)(*a)), sut(lambda: getattr(fresh.dist, meth)(*a))
                expect(same(g, w), "%s %s: %s is %r, a new distribution with the same parameters gives %r", d.name, what, meth, g, w)
                expect(rng_state() == state, "%s: evaluating %s used the global random state (or changed a setting of the process)", d.name, meth)

        changed = False
        for s in c["steps"]:
            if s[0] == "eval":
                look(obj, model, "after %r" % (c["steps"],))
            elif s[0] == "set":
                setattr(obj, s[1], s[2])
                model[s[1]] = s[2]
                changed = True
            elif s[0] == "setarr":
                a = arrv(s[2], d.vec[s[1]])
                setattr(obj, s[1], a)
                model[s[1]] = a.copy()
                changed = True
            elif s[0] == "edit":
                a = getattr(obj, s[1])
                if isinstance(a, np.ndarray):
                    a[s[2]] = s[3]
                    model[s[1]][s[2]] = s[3]
                    changed = True
            elif s[0] in ("copy", "replace"):
                if s[0] == "copy":
                    new = copy.deepcopy(obj)
                else:
                    new = type(obj)(**{f.name: copy.deepcopy(getattr(obj, f.name)) for f in dataclasses.fields(obj)})
                held.append((obj, {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in model.items()}))
                obj = new
            elif s[0] == "bounds":
                obj.set_bounds(1, 3)
            elif s[0] == "sample":
                if d.name not in ("Hypergeometric", "BetaNegativeBinomial"):
                    shape = np.broadcast_shapes(*[np.shape(v) for v in model.values()])
                    sut(lambda: obj.dist.rvs(size=(2,) + shape))
            elif s[0] == "slice":
                if any(isinstance(v, np.ndarray) for v in model.values()):
                    o2 = sut(lambda: obj[s[1]])
                    m2 = {k: (v[s[1]] if isinstance(v, np.ndarray) else v) for k, v in model.items()}
                    look(o2, m2, "indexed")
                    # the selection is separate: changing it leaves the original alone
                    k = sorted(model)[0]
                    setattr(o2, k, m2[k])
        for o, m in held:
            look(o, m, "kept while its copy was changed")
        rec.nontrivial(changed)
        rec.label(*{s[0] for s in c["steps"]})

    return check


for _d in dists.DISTS:
    sub("C17", "reflects-" + _d.key, reflect(_d), quick=60, thorough=2000, rule="a parameter changed between evaluations")(refl(_d))


# ------------------------------------------------------------------ multivariate objects
@st.composite
def mvreflect(draw):
    p = draw(st.integers(2, 3))
    kind = draw(st.sampled_from(["MultivariateNormal", "MultivariateStudentT", "Dirichlet", "DirichletMultinomial", "Multinomial", "InverseWishart", "Wishart"]))
    return {"kind": kind, "p": p, "mu": [draw(gen.vec(mv.E, p)) for _ in range(2)], "S": [draw(gen.spd(p)) for _ in range(2)], "nu": [draw(gen.num(p + 1, 20)) for _ in range(2)],
            "q": [draw(gen.simplex(p)) for _ in range(2)], "n": [draw(st.integers(1, 5)) for _ in range(2)], "edit": draw(st.booleans()), "which": draw(st.integers(0, 2))}


@sub("C17", "reflects-multivariate", mvreflect(), quick=300, thorough=5000, rule="always")
def mvrefl(c, rec):
    import conjugate.distributions as D

    A = lambda v: np.array(v, float)
    P = {"MultivariateNormal": ["mu", "cov"], "MultivariateStudentT": ["mu", "sigma", "nu"], "Dirichlet": ["alpha"], "DirichletMultinomial": ["alpha", "n"],
         "Multinomial": ["n", "p"], "InverseWishart": ["nu", "psi"], "Wishart": ["nu", "V"]}[c["kind"]]
    get = lambda f, i: {"mu": lambda: A(c["mu"][i]), "cov": lambda: A(c["S"][i]), "sigma": lambda: A(c["S"][i]), "psi": lambda: A(c["S"][i]), "V": lambda: A(c["S"][i]),
                        "nu": lambda: c["nu"][i], "alpha": lambda: 9 * A(c["q"][i]), "p": lambda: A(c["q"][i]), "n": lambda: c["n"][i]}[f]()
    cls = getattr(D, c["kind"])
    o = cls(**{f: get(f, 0) for f in P})

    def look(o):
        d = o.dist
        out = [np.asarray(d.mean() if hasattr(d, "mean") and callable(d.mean) else 0.0)] if c["kind"] not in ("MultivariateStudentT", "MultivariateNormal") else []
        if c["kind"] in ("MultivariateNormal", "MultivariateStudentT"):
            out.append(d.logpdf(A(c["mu"][1]) + 1))
        elif c["kind"] == "Dirichlet":
            out.append(d.logpdf(A(c["q"][1])))
        elif c["kind"] in ("DirichletMultinomial", "Multinomial"):
            x = np.zeros(c["p"], int)
            x[0] = o.n
            out.append(d.logpmf(x))
        else:
            out.append(d.logpdf(A(c["S"][1])))
        return out

    sut(look, o)
    ch = [f for i, f in enumerate(P) if c["which"] in (2, i)] or P[:1]
    for f in ch:
        new = get(f, 1)
        if c["edit"] and isinstance(new, np.ndarray):
            getattr(o, f)[...] = new
        else:
            setattr(o, f, new)
    fresh = cls(**{f: get(f, 1 if f in ch else 0) for f in P})
    state = rng_state()
    res = sut(look, o), sut(look, fresh)
    expect(rng_state() == state, "evaluating a %s used the global random state (or changed a setting of the process)", c["kind"])
    for g, w in zip(*res):
        expect(same(g, w), "%s with %s %s: %r, a new one gives %r", c["kind"], ch, "edited in place" if c["edit"] else "reassigned", g, w)
    rec.nontrivial()
    rec.label(c["kind"], "in place" if c["edit"] else "reassigned")


@st.composite
def mvcase(draw):
    name = draw(st.sampled_from(mv.ALL))
    return {"name": name, "c": draw(mv.case_st(name, maxrows=4, mhi=4)), "order": draw(st.sampled_from(["C", "F", "readonly"])), "pred": draw(st.booleans()),
            "all": draw(st.booleans()), "half": draw(st.booleans())}


@sub("C17", "pure-multivariate", mvcase(), quick=500, thorough=10000, rule="always")
def mvpure(c, rec):
    import conjugate.models as F

    k, nm = c["c"], c["name"]
    kw = mv.stats(nm, k["p"], k["data"], k["known"], k["ints"])
    pr = mv.make_prior(nm, k["prior"], k["ints"])

    def lay(v):
        if not isinstance(v, np.ndarray):
            return v
        v = np.asfortranarray(v) if c["order"] == "F" else v.copy()
        if c["order"] == "readonly":
            v.setflags(write=False)
        return v

    kw = {a: lay(v) for a, v in kw.items()}
    for f in dataclasses.fields(pr):
        if getattr(pr, f.name) is not None:
            setattr(pr, f.name, lay(getattr(pr, f.name)))
    before, ob = {a: raw(v) for a, v in kw.items()}, bits(pr)
    rng = rng_state()
    post = mv.call(nm, pr, kw)
    expect(rng_state() == rng, "%s used the global random state (or changed a setting of the process)", nm)
    keep = {a: copy.deepcopy(v) for a, v in fields(post).items()}

    def ok(when):
        expect({a: raw(v) for a, v in kw.items()} == before, "%s changed its data %s", nm, when)
        expect(bits(pr) == ob, "%s changed its prior %s", nm, when)

    ok("")
    for a, v in fields(post).items():
        if isinstance(v, np.ndarray):
            for b, w in list(kw.items()) + list(fields(pr).items()):
                expect(not (isinstance(w, np.ndarray) and np.shares_memory(v, w)), "%s: %s of the posterior shares storage with %s", nm, a, b)
    if c["pred"]:
        pargs = {mv.MV[0]: lambda: {"cov": kw["cov"]}, mv.MV[1]: lambda: {"precision": kw["precision"]}, mv.MV[3]: dict, "linear_regression": lambda: {"X": kw["X"]}}.get(nm)
        if pargs and nm + "_predictive" in dir(F):
            pk = pargs()
            fb, kb = bits(post), {a: raw(v) for a, v in pk.items()}
            q1 = sut(getattr(F, nm + "_predictive"), distribution=post, **pk)
            q2 = sut(getattr(F, nm + "_predictive"), distribution=post, **pk)
            expect(same_result(q1, q2), "%s_predictive repeated gives another result", nm)
            expect(bits(post) == fb and {a: raw(v) for a, v in pk.items()} == kb, "%s_predictive changed its input", nm)
            rec.label("predictive")
    ok("by computing predictives")
    post2 = mv.call(nm, pr, kw)
    expect(all((keep[a] is None and v is None) or same(keep[a], v) for a, v in fields(post2).items()), "%s called again gives another result", nm)
    for v in fields(post).values():
        if isinstance(v, np.ndarray):
            v[...] = -77
    ok("when its posterior was edited")
    post3 = mv.call(nm, pr, kw)
    expect(all((keep[a] is None and v is None) or same(keep[a], v) for a, v in fields(post3).items()), "editing a posterior changed the next result of %s", nm)
    # inputs edited in place: the next call sees the new values, earlier results stay
    edited = []
    for d in (kw, fields(pr)):
        for a, v in d.items():
            if isinstance(v, np.ndarray) and v.flags.writeable and v.size and (len(edited) == 0 or c.get("all", True)):
                if a in kw and a in ("cov", "precision") or (a not in kw and v.ndim == 2):
                    v += np.eye(len(v), dtype=v.dtype)
                elif len(v):
                    v[-1] += 1
                    if c.get("half") and v.ndim == 2 and v.shape[1] > 1:
                        v[0, -1] += 2
                edited.append(a)
    if edited:
        expect(all((keep[a] is None and v is None) or same(keep[a], v) for a, v in fields(post2).items()), "editing %s changed an earlier result of %s", edited, nm)
        got = mv.call(nm, pr, kw)
        want = mv.call(nm, copy.deepcopy(pr), copy.deepcopy(kw))
        expect(same_result(got, want), "%s after %s were edited in place gives %r, fresh copies give %r", nm, edited, got, want)
        rec.label("edited")
    rec.nontrivial()
    rec.label(nm, c["order"])


@st.composite
def dircase(draw):
    k = draw(st.integers(2, 4))
    return {"alpha": draw(gen.vec(gen.num(0.2, 9), k)), "x": draw(gen.vec(st.integers(0, 9), k)), "fa": draw(st.sampled_from(["list", "array"])), "fx": draw(st.sampled_from(["list", "array"])),
            "fn": draw(st.sampled_from(["categorical_dirichlet", "multinomial_dirichlet"])), "n": draw(st.integers(1, 4)), "rows": draw(st.integers(1, 3)),
            "dtypes": draw(st.sampled_from(["fi", "ff", "ii"]))}


def dirrows(c, rec):
    """one problem per row"""
    import conjugate.distributions as D
    import conjugate.models as F

    g = c["rows"]
    ty = {"f": float, "i": int}
    a = (np.array([c["alpha"]] * g) + np.arange(g)[:, None] + 1).astype(ty[c["dtypes"][0]])
    x = (np.array([c["x"]] * g) * (np.arange(g)[:, None] + c["n"] % 2)).astype(ty[c["dtypes"][1]])
    if c["n"] == 4:
        x = x[:1].copy()
    ra, rx = raw(a), raw(x)
    pr = D.Dirichlet(a)
    f = getattr(F, c["fn"])
    p1 = sut(f, x=x, prior=pr)
    keep = raw(p1.alpha)
    state = rng_state()
    sut(lambda: (p1.dist.mean(), pr.dist.mean()))
    expect(rng_state() == state, "the mean of a Dirichlet used the global random state (or changed a setting of the process)")
    expect(not np.shares_memory(p1.alpha, a) and not np.shares_memory(p1.alpha, x), "%s: the posterior of several problems shares storage with an input", c["fn"])
    p2 = sut(f, x=x, prior=pr)
    expect(raw(p2.alpha) == keep and raw(p1.alpha) == keep, "repeated call gives %r, first %r", p2, keep)
    p1.alpha[...] = 77
    expect(raw(a) == ra and raw(x) == rx, "editing the posterior changed an input")
    p3 = sut(f, x=x, prior=pr)
    expect(raw(p3.alpha) == keep, "editing a posterior changed the next one")
    a[...] = 1
    expect(raw(p3.alpha) == keep, "editing the prior's parameters changed an earlier posterior")


@sub("C17", "pure-dirichlet", dircase(), quick=200, thorough=3000, rule="always")
def dirpure(c, rec):
    import conjugate.distributions as D
    import conjugate.models as F

    mk = lambda v, f: list(v) if f == "list" else np.array(v)
    a, x = mk(c["alpha"], c["fa"]), mk(c["x"], c["fx"])
    ra, rx = raw(a), raw(x)
    pr = D.Dirichlet(a)
    f = getattr(F, c["fn"])
    p1 = sut(f, x=x, prior=pr)
    keep = list(p1.alpha)
    sut(getattr(F, c["fn"] + "_predictive"), distribution=p1, n=c["n"])
    state = rng_state()
    sut(lambda: p1.dist.mean())
    sut(lambda: pr.dist.mean())
    expect(rng_state() == state, "the mean of a Dirichlet used the global random state (or changed a setting of the process)")
    p2 = sut(f, x=x, prior=pr)
    expect(list(p2.alpha) == keep and list(p1.alpha) == keep, "repeated call gives %r, first %r", p2, keep)
    expect(raw(a) == ra and raw(x) == rx and pr.alpha is a, "%s changed its input", c["fn"])
    expect(p1.alpha is not a and p1.alpha is not x and p1.alpha is not p2.alpha, "the posterior is one of the inputs")
    for i in range(len(keep)):
        p1.alpha[i] = -77
    expect(raw(a) == ra and raw(x) == rx, "editing the posterior changed an input")
    expect(list(sut(f, x=x, prior=pr).alpha) == keep, "editing a posterior changed the next one")
    rec.nontrivial()
    rec.label(c["fa"] + "/" + c["fx"])
    dirrows(c, rec)


# ------------------------------------------------------------------ constructors and conversions
def _mk():
    import conjugate.distributions as D

    return D


V3 = gen.vec(gen.num(0.5, 20), 3)
CTORS = {
    "Beta.uninformative": (lambda D, a: D.Beta.uninformative(), {}),
    "Beta.from_mean": (lambda D, a: D.Beta.from_mean(mean=a["u"], alpha=a["v"]), {"u": "p", "v": "v"}),
    "Beta.from_successes_and_failures": (lambda D, a: D.Beta.from_successes_and_failures(a["u"], a["v"]), {"u": "v", "v": "v"}),
    "Dirichlet.uninformative": (lambda D, a: D.Dirichlet.uninformative(a["k"]), {"k": "k"}),
    "Gamma.from_occurrences_in_intervals": (lambda D, a: D.Gamma.from_occurrences_in_intervals(occurrences=a["u"], intervals=a["v"]), {"u": "v", "v": "v"}),
    "Normal.uninformative": (lambda D, a: D.Normal.uninformative(), {}),
    "Normal.uninformative(sigma)": (lambda D, a: D.Normal.uninformative(sigma=a["u"]), {"u": "v"}),
    "Normal.from_mean_and_variance": (lambda D, a: D.Normal.from_mean_and_variance(a["u"], a["v"]), {"u": "v", "v": "v"}),
    "Normal.from_mean_and_precision": (lambda D, a: D.Normal.from_mean_and_precision(a["u"], a["v"]), {"u": "v", "v": "v"}),
    "ScaledInverseChiSquared.from_inverse_gamma": (lambda D, a: D.ScaledInverseChiSquared.from_inverse_gamma(D.InverseGamma(a["u"], a["v"])), {"u": "v", "v": "v"}),
    "ScaledInverseChiSquared.to_inverse_gamma": (lambda D, a: D.ScaledInverseChiSquared(a["u"], a["v"]).to_inverse_gamma(), {"u": "v", "v": "v"}),
    "NormalInverseGamma.from_inverse_gamma": (lambda D, a: D.NormalInverseGamma.from_inverse_gamma(mu=a["u"], inverse_gamma=D.InverseGamma(a["v"], a["u"]), nu=a["v"]), {"u": "v", "v": "v"}),
    "NormalInverseGamma.inverse_gamma": (lambda D, a: D.NormalInverseGamma(mu=a["u"], alpha=a["v"], beta=a["u"], nu=a["v"]).inverse_gamma, {"u": "v", "v": "v"}),
    "NormalGamma.gamma": (lambda D, a: D.NormalGamma(mu=a["u"], lam=a["v"], alpha=a["v"], beta=a["u"]).gamma, {"u": "v", "v": "v"}),
    "NormalInverseWishart.from_inverse_wishart": (lambda D, a: D.NormalInverseWishart.from_inverse_wishart(mu=a["u"], kappa=2.0, inverse_wishart=D.InverseWishart(nu=5.0, psi=a["m"])), {"u": "v", "m": "m"}),
    "NormalInverseWishart.inverse_wishart": (lambda D, a: D.NormalInverseWishart(mu=a["u"], kappa=2.0, nu=5.0, psi=a["m"]).inverse_wishart, {"u": "v", "m": "m"}),
    "NormalWishart.wishart": (lambda D, a: D.NormalWishart(mu=a["u"], lam=2.0, W=a["m"], nu=5.0).wishart, {"u": "v", "m": "m"}),
}
DOMS = {"p": gen.vec(st.floats(0.05, 0.95), 3), "v": V3, "k": st.integers(2, 5), "m": gen.spd(3)}


@st.composite
def ctorcase(draw):
    nm = draw(st.sampled_from(sorted(CTORS)))
    return {"name": nm, "args": {k: draw(DOMS[d]) for k, d in CTORS[nm][1].items()}, "other": draw(st.sampled_from(sorted(CTORS))), "bound": draw(gen.num(1, 50)), "scalar": draw(st.booleans())}


@sub("C17", "constructors-independent", ctorcase(), quick=400, thorough=6000, rule="an object was edited between two constructions")
def ctors(c, rec):
    """building an object, editing it in every way, and building again from equal arguments gives the first object again"""
    D = _mk()
    run, doms = CTORS[c["name"]]

    def args():
        out = {}
        for k, v in c["args"].items():
            out[k] = v if doms[k] == "k" else np.array(v, float)
            if c["scalar"] and doms[k] in ("v", "p"):
                out[k] = float(v[0])
        return out

    a0 = args()
    snap = {k: raw(v) for k, v in a0.items()}
    first = sut(run, D, a0)
    expect({k: raw(v) for k, v in a0.items()} == snap, "%s changed its arguments", c["name"])
    want = bits(first)
    lo = getattr(first, "min_value", None) if hasattr(first, "set_min_value") else None
    for f, v in fields(first).items():
        if isinstance(v, np.ndarray) and v.flags.writeable and v.size:
            v += 1.5
            rec.nontrivial()
    for f, v in fields(first).items():
        if v is not None:
            setattr(first, f, 0.125)
            rec.nontrivial()
    if hasattr(first, "set_bounds"):
        first.set_bounds(-7.0, c["bound"])
    again = sut(run, D, args())
    expect(bits(again) == want, "%s gives %r after an earlier result was edited, %s before", c["name"], again, want)
    if hasattr(again, "set_bounds"):
        expect(again.min_value == lo and again.min_value != -7.0, "%s: the lower plot bound %r of another object shows", c["name"], again.min_value)
        try:
            hi = again.max_value
        except ValueError:
            hi = None
        expect(hi is None or hi != c["bound"] or hi == 1.0, "%s: the upper plot bound %r of another object shows", c["name"], hi)
    rec.label(c["name"])


# ------------------------------------------------------------------ several threads at once
@st.composite
def threadcase(draw):
    pool = []
    for _ in range(draw(st.integers(2, 6))):
        if draw(st.integers(0, 2)) == 0:
            nm = draw(st.sampled_from(mv.ALL))
            pool.append({"mv": nm, "c": draw(mv.case_st(nm, maxrows=4, mhi=3))})
        else:
            c = draw(st.sampled_from(calls.CALLS))
            if pool and "v" in pool[-1] and draw(st.booleans()):
                c = calls.BY_NAME[pool[-1]["c"]]
            dom = {**{"f." + k: d for k, d in c.fields.items()}, **c.args}
            pool.append({"c": c.name, "v": {a: draw(value(d)) for a, d in sorted(dom.items())}})
    return {"pool": pool, "threads": draw(st.integers(2, 4)), "reps": draw(st.sampled_from([3, 10, 30]))}


def objects(p):
    if "mv" in p:
        k = p["c"]
        return mv.make_prior(p["mv"], k["prior"], k["ints"]), mv.stats(p["mv"], k["p"], k["data"], k["known"], k["ints"])
    c = calls.BY_NAME[p["c"]]
    A = (lambda v: np.array([v, v])) if p.get("arr") else (lambda v: v)
    return c.make({k[2:]: A(v) for k, v in p["v"].items() if k.startswith("f.")}), {k: A(v) for k, v in p["v"].items() if not k.startswith("f.")}


@st.composite
def twins(draw, nm=None, least=1):
    """two problems of one multivariate model with different numbers in the same shapes"""
    nm = nm or draw(st.sampled_from(mv.ALL))
    x = draw(mv.case_st(nm, maxrows=4, mhi=3, lo=least))
    p = x["p"]
    w = p + 1 if nm == "linear_regression" else p
    y = {**x, "prior": draw(mv.prior_st(nm, p)), "known": draw(mv.known_st(nm, p)), "data": [[draw(gen.vec(mv.E, w)), m] for _, m in x["data"]]}
    return [{"mv": nm, "c": x}, {"mv": nm, "c": y}]


def one(p, given=None):
    """the result as plain arrays, with the density of the result where it has one"""
    o, a = given or objects(p)
    r = mv.call(p["mv"], o, a) if "mv" in p else calls.BY_NAME[p["c"]](o, a)
    out = [np.array(v, dtype=float) for k, v in sorted(fields(r).items()) if v is not None and not isinstance(v, bool)]
    if "c" in p and "mv" not in p and hasattr(type(r), "dist") and type(r).__name__ in dists.BY_KEY:
        d = dists.BY_KEY[type(r).__name__]
        with np.errstate(all="ignore"):
            out.append(np.array(getattr(r.dist, d.pm)(np.array([0.25, 0.5]) if d.continuous else np.array([1, 2])), dtype=float))
    return out


@sub("C17", "threads", threadcase(), quick=60, thorough=3000, rule="at least two different problems")
def threads(c, rec):
    """problems solved at the same time in several threads have the results they have alone"""
    import sys
    import threading

    pool = c["pool"]
    alone = [sut(one, p) for p in pool]
    wrong = []
    old = sys.getswitchinterval()
    start = threading.Barrier(c["threads"])

    def work(t):
        try:
            start.wait(20)
            for r in range(c["reps"]):
                for i in range(len(pool)):
                    j = (i * (1 if t % 2 else -1) + t) % len(pool)
                    got = one(pool[j])
                    if not (len(got) == len(alone[j]) and all(same(x, y) for x, y in zip(got, alone[j]))):
                        wrong.append((j, [x.tolist() for x in got]))
                        return
        except threading.BrokenBarrierError:
            return
        except Exception as e:  # noqa
            wrong.append((-1, repr(e)))

    try:
        sys.setswitchinterval(1e-6)
        ts = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(c["threads"])]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    if wrong:
        j, got = wrong[0]
        fail("with %d threads %s gives %r, alone %r" % (c["threads"], pool[j] if j >= 0 else "a call", got, [x.tolist() for x in alone[j]] if j >= 0 else "no error"))
    rec.nontrivial(len({repr(p) for p in pool}) > 1)
    rec.label("threads=%d" % c["threads"])


# ------------------------------------------------------------------ every point of interruption, one after another
def interrupted(first, second, at, fine, look=None):
    """run first(); when it is about to execute its at-th line (or instruction) inside the package, let another thread run second()
    to its end (or for a while, should first hold a lock); returns both results and whether the point was reached"""
    import sys
    import threading

    from pbt import env

    pkg = env.REPO.rstrip("/") + "/conjugate/"
    state = {"n": 0, "t": None}
    out = {}

    def other():
        try:
            out["second"] = second()
        except BaseException as e:  # noqa
            out["second"] = repr(e)

    def local(frame, event, arg):
        if event == ("opcode" if fine else "line") and state["t"] is None:
            if look is not None:
                look(frame, state["n"])
            if state["n"] == at:
                state["t"] = threading.Thread(target=other, daemon=True)
                state["t"].start()
                state["t"].join(3)
            state["n"] += 1
        return local

    def tracer(frame, event, arg):
        if state["t"] is None and frame.f_code.co_filename.startswith(pkg):
            if fine:
                frame.f_trace_opcodes = True
            return local
        return None

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        out["first"] = first()
    finally:
        sys.settrace(old)
    if state["t"] is not None:
        state["t"].join(30)
    return out, state["t"] is not None, state["n"]


@st.composite
def schedcase(draw):
    def problem():
        if draw(st.integers(0, 3)) == 0:
            nm = draw(st.sampled_from(mv.ALL))
            if draw(st.integers(0, 3)):
                return draw(twins(nm))
            return [{"mv": nm, "c": draw(mv.case_st(nm, maxrows=4, mhi=3))} for _ in range(2)]
        c = draw(st.sampled_from(calls.CALLS))
        dom = {**{"f." + k: d for k, d in c.fields.items()}, **c.args}
        return [{"c": c.name, "v": {a: draw(value(d)) for a, d in sorted(dom.items())}} for _ in range(2)]

    a, b = problem()
    mode = draw(st.sampled_from(["same function", "same function", "other function", "same objects"]))
    if mode == "other function":
        b = problem()[0]
    elif mode == "same objects":  # one thread more with the very same prior and data
        b = a
        if "c" in a and "mv" not in a:
            a["arr"] = draw(st.booleans())
    return {"a": a, "b": b, "mode": mode, "fine": draw(st.integers(0, 3)) == 0, "off": draw(st.integers(0, 1000))}


@sub("C17", "interrupted-at-every-point", schedcase(), quick=500, thorough=10000, rule="interrupted by a different problem, or by one sharing its objects", shards=4)
@sub("C17", "interrupted-multivariate", st.builds(lambda t, f, o: {"a": t[0], "b": t[1], "mode": "same function", "fine": f == 0, "off": o}, twins(least=2), st.integers(0, 4), st.integers(0, 1000)),
     quick=100, thorough=3000, rule="interrupted by a different problem in the same shapes", shards=2)
def preempt(c, rec):
    """two calls interleaved at each possible point of the first one have the results they have alone"""
    alone = [sut(one, c[k]) for k in "ab"]
    eq = lambda g, w: not isinstance(g, str) and len(g) == len(w) and all(same(x, y) for x, y in zip(g, w))
    ga, gb = objects(c["a"]), objects(c["b"])
    if c["mode"] == "same objects":
        gb = ga
    # what it was given is unchanged at every line, not only afterwards
    given = lambda: (bits(ga[0]), {k: raw(v) for k, v in ga[1].items()})
    before, seen = given(), []

    def look(frame, n):
        if not seen:
            now = given()
            if now != before:
                seen.append((frame.f_code.co_name, n, now))

    if c["fine"]:  # the interpreter reports instructions from the second run on
        interrupted(lambda: one(c["a"], ga), lambda: None, 10**9, True)
    tot = interrupted(lambda: one(c["a"], ga), lambda: None, 10**9, c["fine"], look)[2]
    expect(not seen, "while %r is computed, what it was given reads %r (in %s), given %r", c["a"], seen[0][2] if seen else None, seen[0][0] if seen else None, before)
    step = max(1, tot // 40)
    at = c["off"] % step
    points = 0
    while at < tot:
        out, hit, _ = interrupted(lambda: one(c["a"], ga), lambda: one(c["b"], gb), at, c["fine"])
        points += hit
        expect(eq(out["first"], alone[0]), "%r interrupted at its %s %d by %r gives %r, alone %r", c["a"], "instruction" if c["fine"] else "line", at, c["b"], out["first"], alone[0])
        if hit:
            expect("second" in out and eq(out["second"], alone[1]), "%r run while %r is at its %s %d gives %r, alone %r", c["b"], c["a"], "instruction" if c["fine"] else "line", at,
                   out.get("second"), alone[1])
        at += step
    rec.nontrivial(points > 0 and (repr(c["a"]) != repr(c["b"]) or c["mode"] == "same objects"))
    rec.label(c["mode"], "by instruction" if c["fine"] else "by line", "points=%s" % (points if points < 5 else "5+" if points < 15 else "15+"))


# ------------------------------------------------------------------ the same for everything that is not a model
def _mat(v):
    return np.array([[1 + v[0], 0.2 * v[1]], [0.2 * v[1], 1 + v[2]]])


def _flds(o):
    return [np.asarray(x, float) for _, x in sorted(fields(o).items()) if x is not None]


OPS = {
    "normal-inverse-gamma": lambda D, v, s: D.NormalInverseGamma(mu=v[0], alpha=v[1], beta=v[2], nu=v[3]).sample_mean(size=3, return_variance=True, random_state=s),
    "normal-inverse-gamma-nd": lambda D, v, s: D.NormalInverseGamma(mu=np.array(v[:2]), alpha=v[1], beta=v[2], delta_inverse=_mat(v)).sample_beta(size=3, return_variance=True, random_state=s),
    "normal-gamma": lambda D, v, s: D.NormalGamma(mu=v[0], alpha=v[1], beta=v[2], lam=v[3]).sample_mean(size=3, return_variance=True, random_state=s),
    "normal-inverse-wishart": lambda D, v, s: D.NormalInverseWishart(mu=np.array(v[:2]), kappa=v[1], nu=3 + v[2], psi=_mat(v)).sample_mean(size=3, return_variance=True, random_state=s),
    "normal-wishart": lambda D, v, s: D.NormalWishart(mu=np.array(v[:2]), lam=v[1], nu=3 + v[2], W=_mat(v)).sample_mean(size=3, return_variance=True, random_state=s),
    "beta-geometric": lambda D, v, s: (lambda d: [d.rvs(size=4, random_state=s), d.pmf(np.array([1, 2, 5]))])(D.BetaGeometric(v[0] + 1, v[1], one_start=s % 2 == 0).dist),
    "compound-gamma": lambda D, v, s: (lambda d: [d.rvs(size=4, random_state=s), d.pdf(np.array([0.5, 2.0]))])(D.CompoundGamma(v[0], v[1], v[2]).dist),
    "dirichlet-batch": lambda D, v, s: [D.Dirichlet(np.array([v[:3], v[1:]])).dist.mean()],
    "index": lambda D, v, s: _flds(D.Gamma(np.array(v), 2.0)[1:3]) + _flds(D.BetaBinomial(7, np.array(v), np.array(v[::-1]))[np.array([0, 3])]),
    "marginal": lambda D, v, s: _flds(D.MultivariateNormal(np.array(v[:2]), _mat(v))[0]) + _flds(D.MultivariateStudentT(np.array(v[:2]), _mat(v), v[3])[[1, 0]]),
    "beta-curve": lambda D, v, s: [D.BetaProportional(0.1, 0.2, v[0]).approx_log_likelihood(np.array(v), v[1])],
    "gamma-curve": lambda D, v, s: [D.GammaProportional(v[0], v[1], v[2], v[3]).approx_log_likelihood(np.array(v), v[1]),
                                    D.GammaKnownRateProportional(v[0], v[1], v[2]).approx_log_likelihood(np.array(v), v[1])],
    "von-mises-curve": lambda D, v, s: [D.VonMisesKnownConcentration(v[0], v[1]).log_likelihood(np.array(v)), D.VonMisesKnownDirectionProportional(v[0], v[1]).approx_log_likelihood(np.array(v))],
    "conversions": lambda D, v, s: _flds(D.ScaledInverseChiSquared(v[0], v[1]).to_inverse_gamma()) + _flds(D.ScaledInverseChiSquared.from_inverse_gamma(D.InverseGamma(v[0], v[1])))
    + _flds(D.Beta.from_mean(v[0] / 10, v[1])) + _flds(D.Normal.from_mean_and_precision(v[0], v[1])) + _flds(D.NormalInverseGamma.from_inverse_gamma(v[0], D.InverseGamma(v[1], v[2]), nu=v[3])),
    "arithmetic": lambda D, v, s: _flds(v[0] * D.Normal(v[1], v[2])) + _flds(D.Poisson(np.array(v)) + D.Poisson(v[1])) + _flds(D.Gamma(v[0], v[1]) * v[2]) + _flds(D.NegativeBinomial(v[0], 0.3) * v[2]),
}


@sub("C17", "interrupted-samplers-and-curves", st.fixed_dictionaries(dict(
    a=st.sampled_from(sorted(OPS)), b=st.one_of(st.none(), st.none(), st.sampled_from(sorted(OPS))), va=st.lists(gen.pos(0.3, 5), min_size=4, max_size=4),
    vb=st.lists(gen.pos(0.3, 5), min_size=4, max_size=4), sa=st.integers(0, 99), sb=st.integers(0, 99), fine=st.sampled_from([False, False, False, True]), off=st.integers(0, 1000))),
     quick=240, thorough=3000, rule="interrupted by a different problem", shards=2)
def preempt_ops(c, rec):
    """draws, densities, curves, indexing, conversions and arithmetic interleaved with another call at each of their points"""
    import conjugate.distributions as D

    b = c["b"] or c["a"]
    A = lambda: [np.array(x, float) for x in OPS[c["a"]](D, c["va"], c["sa"])]
    B = lambda: [np.array(x, float) for x in OPS[b](D, c["vb"], c["sb"])]
    eq = lambda g, w: not isinstance(g, str) and len(g) == len(w) and all(same(x, y) for x, y in zip(g, w))
    wa, wb = sut(A), sut(B)
    if c["fine"]:
        interrupted(A, lambda: None, 10**9, True)
    tot = interrupted(A, lambda: None, 10**9, c["fine"])[2]
    step = max(1, tot // 30)
    points = 0
    for at in range(c["off"] % step, tot, step):
        out, hit, _ = interrupted(A, B, at, c["fine"])
        points += hit
        where = "%s %d" % ("instruction" if c["fine"] else "line", at)
        expect(eq(out["first"], wa), "%s%r interrupted at its %s by %s%r gives %r, alone %r", c["a"], c["va"], where, b, c["vb"], out["first"], wa)
        if hit:
            expect("second" in out and eq(out["second"], wb), "%s%r run while %s%r is at its %s gives %r, alone %r", b, c["vb"], c["a"], c["va"], where, out.get("second"), wb)
    rec.nontrivial(points > 0 and (b != c["a"] or c["va"] != c["vb"]))
    rec.label(c["a"], "by instruction" if c["fine"] else "by line")
