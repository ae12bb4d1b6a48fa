"""Every computation of the package on a prior/distribution object: object class, its fields, the other arguments, how to call it.

Domains are those of pbt.vec: (lo, hi) or (lo, hi, True), every combination valid.
"""
from pbt import models, preds, vec


class Call:
    def __init__(self, name, cls, fields, args, run, out, consts=None, posterior=False, shared=()):
        self.name, self.cls, self.fields, self.args, self.run, self.out = name, cls, fields, args, run, out
        self.consts, self.posterior, self.shared = consts or {}, posterior, set(shared)

    def make(self, values):
        return getattr(vec.D(), self.cls)(**values)

    def __call__(self, obj, args):
        return self.run(obj, args)


CALLS = []


def fn(name, par, consts):
    return lambda o, a: getattr(vec.F(), name)(**{par: o}, **{k.split(".")[-1]: v for k, v in a.items()}, **consts)


for m in models.MODELS:
    CALLS.append(Call("model:" + m.key, m.prior, {f: m.vec[f] for f in m.fields}, {a: d for a, d in m.vec.items() if a not in m.fields}, fn(m.fn, "prior", m.consts),
                      sorted(m.fields), posterior=True))
for p in preds.PREDS:
    CALLS.append(Call("pred:" + p.key, p.dist, {f: p.vec[f] for f in p.fields}, {a: d for a, d in p.vec.items() if a not in p.fields}, fn(p.name, "distribution", p.consts),
                      vec.PF[p.name]))


def unnorm(name, cls, fields, rename=None):
    o = vec.BY_NAME["model:" + name]
    ren = rename or {}
    CALLS.append(Call("model:" + name, cls, {f: o.dom[ren.get(f, f)] for f in fields}, {a: d for a, d in o.dom.items() if a not in [ren.get(f, f) for f in fields]},
                      fn(name, "prior", {}), sorted(fields), posterior=True, shared=["n"] if name.startswith("hyper") else []))


unnorm("gamma", "GammaProportional", ["p", "q", "r", "s"])
unnorm("gamma_known_rate", "GammaKnownRateProportional", ["a", "b", "c"])
unnorm("beta", "BetaProportional", ["p", "q", "k"])
unnorm("von_mises_known_concentration", "VonMisesKnownConcentration", ["a", "b"])
unnorm("von_mises_known_direction", "VonMisesKnownDirectionProportional", ["c", "r"])
unnorm("hypergeometric_beta_binomial", "BetaBinomial", ["n", "alpha", "beta"], {"n": "N"})

CURVE = {
    "gamma": ("GammaProportional", ["p", "q", "r", "s"], "approx_log_likelihood"), "gamma_known_rate": ("GammaKnownRateProportional", ["a", "b", "c"], "approx_log_likelihood"),
    "beta": ("BetaProportional", ["p", "q", "k"], "approx_log_likelihood"), "von_mises_known_concentration": ("VonMisesKnownConcentration", ["a", "b"], "log_likelihood"),
    "von_mises_known_direction": ("VonMisesKnownDirectionProportional", ["c", "r"], "approx_log_likelihood"),
}
for name, (cls, fields, meth) in CURVE.items():
    o = vec.BY_NAME["curve:" + name]
    CALLS.append(Call("curve:" + name, cls, {f: o.dom[f] for f in fields}, {a: d for a, d in o.dom.items() if a not in fields},
                      lambda ob, a, meth=meth: vec.Val(getattr(ob, meth)(**a)), ["v"]))
for cls in ("Exponential", "Gamma", "NegativeBinomial", "Poisson", "Normal"):
    o = vec.BY_NAME["mul:" + cls]
    CALLS.append(Call("mul:" + cls, cls, {f: d for f, d in o.dom.items() if f != "k"}, {"k": o.dom["k"]}, lambda ob, a: ob * a["k"], o.fields))
CALLS.append(Call("add:Poisson", "Poisson", {"lam": (0.2, 9)}, {"l2": (0.2, 9)}, lambda ob, a: ob + vec.D().Poisson(a["l2"]), ["lam"]))
CALLS.append(Call("conv:to_inverse_gamma", "ScaledInverseChiSquared", {"nu": (0.2, 9), "sigma2": (0.2, 9)}, {}, lambda ob, a: ob.to_inverse_gamma(), ["alpha", "beta"]))
CALLS.append(Call("conv:from_inverse_gamma", "InverseGamma", {"alpha": (0.2, 9), "beta": (0.2, 9)}, {},
                  lambda ob, a: vec.D().ScaledInverseChiSquared.from_inverse_gamma(ob), ["nu", "sigma2"]))
BY_NAME = {c.name: c for c in CALLS}
