"""Independent reference formulas in 200-bit arithmetic (mpmath)."""
import mpmath as mp

mpf = mp.mpf
lg = mp.loggamma


def M(x):
    """exact mpf of a python/numpy number (or nested list of them)"""
    if isinstance(x, (list, tuple)):
        return [M(v) for v in x]
    if isinstance(x, mp.mpf):
        return x
    if hasattr(x, "tolist"):
        return M(x.tolist())
    return mpf(x)


def lbeta(a, b):
    return lg(a) + lg(b) - lg(a + b)


# ---------------------------------------------------------------- univariate log densities
def beta(x, a, b):
    return (a - 1) * mp.log(x) + (b - 1) * mp.log(1 - x) - lbeta(a, b)


def gamma(x, a, b):
    return a * mp.log(b) - lg(a) + (a - 1) * mp.log(x) - b * x


def invgamma(x, a, b):
    return a * mp.log(b) - lg(a) - (a + 1) * mp.log(x) - b / x


def sics(x, nu, s2):
    return invgamma(x, nu / 2, nu * s2 / 2)


def normal(x, mu, sigma):
    return -((x - mu) ** 2) / (2 * sigma**2) - mp.log(sigma) - mp.log(2 * mp.pi) / 2


def normal_var(x, mu, var):
    return -((x - mu) ** 2) / (2 * var) - mp.log(2 * mp.pi * var) / 2


def expon(x, lam):
    return mp.log(lam) - lam * x


def pareto(x, x_m, alpha):
    if x < x_m:
        return -mp.inf
    return mp.log(alpha) + alpha * mp.log(x_m) - (alpha + 1) * mp.log(x)


def lomax(x, alpha, lam):
    return mp.log(alpha) - mp.log(lam) - (alpha + 1) * mp.log(1 + x / lam)


def student(x, mu, sigma, nu):
    z = (x - mu) / sigma
    return (
        lg((nu + 1) / 2)
        - lg(nu / 2)
        - mp.log(nu * mp.pi) / 2
        - mp.log(sigma)
        - (nu + 1) / 2 * mp.log(1 + z * z / nu)
    )


def lognormal(x, mu, sigma):
    return normal(mp.log(x), mu, sigma) - mp.log(x)


def weibull(x, beta_, theta):
    """density (beta/theta) x^(beta-1) exp(-x^beta/theta)"""
    return mp.log(beta_) - mp.log(theta) + (beta_ - 1) * mp.log(x) - x**beta_ / theta


def vonmises(x, mu, kappa):
    return kappa * mp.cos(x - mu) - mp.log(2 * mp.pi * mp.besseli(0, kappa))


def compound_gamma(x, a, b, q):
    """gamma(a, rate g) with g ~ gamma(b, rate q)"""
    return (a - 1) * mp.log(x / q) - (a + b) * mp.log(1 + x / q) - mp.log(q) - lbeta(a, b)


# ---------------------------------------------------------------- discrete log masses
def lchoose(n, k):
    return lg(n + 1) - lg(k + 1) - lg(n - k + 1)


def binom(x, n, p):
    return lchoose(n, x) + x * mp.log(p) + (n - x) * mp.log(1 - p)


def nbinom(x, n, p):
    return lg(x + n) - lg(n) - lg(x + 1) + n * mp.log(p) + x * mp.log(1 - p)


def geom(x, p, one_start=True):
    return mp.log(p) + (x - (1 if one_start else 0)) * mp.log(1 - p)


def poisson(x, lam):
    return x * mp.log(lam) - lam - lg(x + 1)


def hypergeom(x, N, k, n):
    return lchoose(k, x) + lchoose(N - k, n - x) - lchoose(N, n)


def betabinom(x, n, a, b):
    return lchoose(n, x) + lbeta(x + a, n - x + b) - lbeta(a, b)


def betanbinom(x, n, a, b):
    return lg(n + x) - lg(n) - lg(x + 1) + lbeta(a + n, b + x) - lbeta(a, b)


def betageom(x, a, b, one_start=True):
    k = x - (1 if one_start else 0)
    return lbeta(a + 1, k + b) - lbeta(a, b)


# ---------------------------------------------------------------- vectors
def dirichlet(x, alpha):
    return lg(mp.fsum(alpha)) - mp.fsum(lg(a) for a in alpha) + mp.fsum((a - 1) * mp.log(v) for a, v in zip(alpha, x))


def multinomial(x, p):
    n = mp.fsum(x)
    return lg(n + 1) - mp.fsum(lg(v + 1) for v in x) + mp.fsum(v * mp.log(q) for v, q in zip(x, p) if v)


def dirmult(x, alpha):
    n = mp.fsum(x)
    A = mp.fsum(alpha)
    return (
        lg(A)
        + lg(n + 1)
        - lg(n + A)
        + mp.fsum(lg(v + a) - lg(a) - lg(v + 1) for v, a in zip(x, alpha))
    )


# ---------------------------------------------------------------- matrices (lists of lists of mpf)
def mm(A):
    return mp.matrix(M(A))


def col(v):
    return mp.matrix([[t] for t in M(v)])


def chol(A):
    n = A.rows
    L = mp.zeros(n)
    for i in range(n):
        for j in range(i + 1):
            s = A[i, j] - mp.fsum(L[i, k] * L[j, k] for k in range(j))
            if i == j:
                if s <= 0:
                    raise ValueError("not positive definite")
                L[i, i] = mp.sqrt(s)
            else:
                L[i, j] = s / L[j, j]
    return L


def logdet(A):
    L = chol(A)
    return 2 * mp.fsum(mp.log(L[i, i]) for i in range(A.rows))


def inv(A):
    return A**-1


def quad(A, v):
    """v' A v for a column v"""
    return (v.T * A * v)[0]


def tr(A):
    return mp.fsum(A[i, i] for i in range(A.rows))


def mvn(x, mu, cov):
    P = inv(cov)
    d = x - mu
    return -quad(P, d) / 2 - logdet(cov) / 2 - cov.rows * mp.log(2 * mp.pi) / 2


def lmvgamma(a, p):
    return p * (p - 1) * mp.log(mp.pi) / 4 + mp.fsum(lg(a + mpf(1 - j) / 2) for j in range(1, p + 1))


def invwishart(S, nu, psi):
    p = psi.rows
    return (
        nu * logdet(psi) / 2
        - nu * p * mp.log(2) / 2
        - lmvgamma(nu / 2, p)
        - (nu + p + 1) * logdet(S) / 2
        - tr(psi * inv(S)) / 2
    )


def wishart(S, nu, V):
    p = V.rows
    return (
        (nu - p - 1) * logdet(S) / 2
        - tr(inv(V) * S) / 2
        - nu * p * mp.log(2) / 2
        - nu * logdet(V) / 2
        - lmvgamma(nu / 2, p)
    )


def niw(mu, S, mu0, kappa, nu, psi):
    return invwishart(S, nu, psi) + mvn(mu, mu0, S / kappa)


def nig_nd(b, s2, mu, delta_inverse, alpha, beta_):
    return invgamma(s2, alpha, beta_) + mvn(b, mu, delta_inverse * s2)


def mvt(x, loc, shape, df):
    p = shape.rows
    d = x - loc
    q = quad(inv(shape), d)
    return (
        lg((df + p) / 2)
        - lg(df / 2)
        - p * mp.log(df * mp.pi) / 2
        - logdet(shape) / 2
        - (df + p) / 2 * mp.log(1 + q / df)
    )


def nig(mu, s2, m, nu, a, b):
    return invgamma(s2, a, b) + normal_var(mu, m, s2 / nu)


def ng(mu, tau, m, lam, a, b):
    return gamma(tau, a, b) + normal_var(mu, m, 1 / (lam * tau))


# ---------------------------------------------------------------- comparing
def err(got, want):
    g = M(got) if not isinstance(got, mp.mpf) else got
    return abs(g - want)


def close(got, want, mag=None, rel=1e-11, abs_=0):
    """|got-want| <= rel * mag, where mag is the size of the terms that enter the sum"""
    try:
        g = M(got)
    except Exception:
        return False
    if isinstance(g, list):
        return False
    if mp.isnan(g):
        return False
    if mp.isinf(g) or mp.isinf(want):
        return g == want
    m = abs(want) if mag is None else max(abs(mag), abs(want))
    return abs(g - want) <= rel * m + abs_ + mpf(10) ** -290
