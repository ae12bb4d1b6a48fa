"""Strategies. Every drawn value is plain JSON data."""
import ast
import glob
import math
import os
import zlib

from hypothesis import strategies as st

from pbt import env


def _mine():
    """Numeric literals of the code under test: a dictionary for the generators, as fuzzers use.

    Branches on magic sizes or magnitudes are reached through these (and their neighbours);
    no verdict depends on them.
    """
    out = set()
    for f in sorted(glob.glob(os.path.join(env.REPO, "conjugate", "*.py"))):
        try:
            tree = ast.parse(open(f).read())
        except Exception:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and type(n.value) in (int, float):
                v = n.value
                if math.isfinite(v) and abs(v) <= 1e9:
                    out.add(v)
                    for b in (10, 2):  # 1 << 20, 10 ** 6 and the like
                        if isinstance(v, int) and 2 < v <= (9 if b == 10 else 30):
                            out.add(b**v)
    ext = set()
    for v in out:
        ext |= {v, v + 1, v - 1, -v, v / 2, 2 * v, v * 1.0000001, v * 0.9999999}
        if v:
            ext.add(1 / v)
    return sorted(ext)


DICT = _mine()
NICE = [0.0, 0.1, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 5.0, 7.0, 10.0, 12.5, 20.0, 50.0, 100.0, 1000.0]


def num(lo, hi, log=None, nice=True):
    """float (sometimes int) in [lo, hi]"""
    if log is None:
        log = lo > 0 and hi / lo > 50
    opts = []
    if nice:
        pool = sorted({v for v in NICE + [-v for v in NICE] if lo <= v <= hi}, key=lambda v: (abs(abs(v) - 1), v < 0))
        if pool:
            opts.append(st.sampled_from(pool))
        a, b = math.ceil(lo), math.floor(min(hi, 60))
        if a <= b:
            opts.append(st.integers(a, b))
            if hi > 200:
                opts.append(st.integers(a, math.floor(min(hi, 3000))))
        pool = sorted({v for v in DICT if lo <= v <= hi}, key=abs)
        if pool:
            opts.append(st.sampled_from(pool))
        if lo < 0:
            opts.append(st.sampled_from([-v for v in NICE if lo <= -v <= hi] or [lo]))
    opts.append(st.floats(lo, hi, allow_subnormal=False))
    if log:
        opts.append(st.floats(math.log(lo), math.log(hi)).map(lambda t: min(hi, max(lo, math.exp(t)))))
        opts.append(st.floats(math.log(lo), math.log(hi)).map(lambda t: min(hi, max(lo, math.exp(t)))))
    return st.one_of(opts)


def pos(lo=1e-3, hi=1e4):
    return num(lo, hi)


def real(scale=100.0):
    return st.one_of(num(-scale, scale), num(-3, 3, nice=False))


def integer(lo, hi):
    opts = [st.integers(lo, min(hi, lo + 12)), st.integers(lo, hi)]
    pool = sorted({int(v) for v in DICT if v == int(v) and lo <= v <= hi})
    if pool:
        opts.append(st.sampled_from(pool))
    if hi > 100:
        opts.append(st.floats(math.log(max(lo, 1)), math.log(hi)).map(lambda t: min(hi, max(lo, int(math.exp(t))))))
    return st.one_of(opts)


def prob(eps=1e-6):
    return st.one_of(
        st.sampled_from([0.5, 0.1, 0.25, 0.9, 0.01, 0.99]),
        st.floats(eps, 1 - eps),
        st.floats(math.log(eps), 0).map(lambda t: min(1 - eps, math.exp(t))),
    )


def mult(hi=10**6):
    """multiplicity of a data item"""
    return st.one_of(st.just(1), st.integers(1, 4), integer(1, hi))


def items(value, min_size=1, max_size=5, hi=10**6):
    return st.lists(st.tuples(value, mult(hi)).map(list), min_size=min_size, max_size=max_size)


def simplex(k):
    return st.lists(st.floats(1e-3, 1.0), min_size=k, max_size=k).map(lambda v: [x / sum(v) for x in v])


def vec(value, n):
    return st.lists(value, min_size=n, max_size=n)


def mat(value, r, c):
    return st.lists(vec(value, c), min_size=r, max_size=r)


def spd(p, lo=0.05, hi=20.0):
    """Symmetric positive definite: unit lower-triangular L (|entries|<=1.5), diagonal D; A = L D L'."""

    def build(t):
        d, low, scale = t
        L = [[0.0] * p for _ in range(p)]
        it = iter(low)
        for i in range(p):
            L[i][i] = 1.0
            for j in range(i):
                L[i][j] = round(next(it), 3)
        A = [
            [scale * sum(L[i][k] * d[k] * L[j][k] for k in range(p)) for j in range(p)]
            for i in range(p)
        ]
        for i in range(p):
            for j in range(i):
                A[i][j] = A[j][i]
        return A

    diag = st.one_of(
        st.sampled_from([1.0, 0.5, 2.0]),
        st.floats(math.log(lo), math.log(hi)).map(lambda t: float("%.4g" % math.exp(t))),
    )
    n = p * (p - 1) // 2
    return st.tuples(
        vec(diag, p), vec(st.one_of(st.just(0.0), st.floats(-1.5, 1.5)), n), st.sampled_from([1.0, 1.0, 0.01, 100.0, 1e-4, 1e4])
    ).map(build)


SEEDS = st.integers(0, 2**31 - 1)

# ---- number kinds: how one scalar is presented to the code under test
KINDS = ["float", "npfloat", "int", "npint", "arr0"]


# "mix:<seed>" presents every argument in its own way
KIND = st.one_of(st.sampled_from(["raw", "raw", "float", "npfloat", "npint", "arr0"]), st.integers(0, 999).map("mix:%d".__mod__))


def present(v, kind, name=""):
    import numpy as np

    if kind.startswith("mix:"):
        kind = (["raw"] + KINDS)[zlib.crc32((kind + name).encode()) % (1 + len(KINDS))]
    if kind in ("int", "npint") and abs(v) < 2**31 and float(v) == int(v):
        return int(v) if kind == "int" else np.int64(int(v))
    if kind == "npfloat":
        return np.float64(v)
    if kind == "arr0":
        return np.array(float(v))
    if kind == "raw":
        return v
    return float(v)
