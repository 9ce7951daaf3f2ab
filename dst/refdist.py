"""Reference densities, written from the documented parameterisations (not from the package's code).

ref_log(cls, fields, x) -> log density / log mass, elementwise with numpy broadcasting.
ref_cdf(cls, fields, x) -> distribution function.
"""
import numpy as np
from scipy import special as sp

_LN2PI = float(np.log(2 * np.pi))


def _f(v):
    return np.asarray(v, dtype=float)


def betaln(a, b):
    return sp.gammaln(a) + sp.gammaln(b) - sp.gammaln(a + b)


def lchoose(n, k):
    return sp.gammaln(n + 1) - sp.gammaln(k + 1) - sp.gammaln(n - k + 1)


def _inside(ok, val):
    return np.where(ok, val, -np.inf)


def _xlogy(a, b):
    return sp.xlogy(a, b)


def Beta(x, alpha, beta):
    ok = (x >= 0) & (x <= 1)
    y = np.where(ok, x, 0.5)
    return _inside(ok, _xlogy(alpha - 1, y) + sp.xlog1py(beta - 1, -y) - betaln(alpha, beta))


def Binomial(x, n, p):
    ok = (x >= 0) & (x <= n)
    k = np.where(ok, x, 0)
    return _inside(ok, lchoose(n, k) + _xlogy(k, p) + sp.xlog1py(n - k, -p))


def Exponential(x, lam):
    return _inside(x >= 0, np.log(lam) - lam * x)


def Gamma(x, alpha, beta):
    ok = x >= 0
    y = np.where(ok, x, 1.0)
    return _inside(ok, alpha * np.log(beta) - sp.gammaln(alpha) + _xlogy(alpha - 1, y) - beta * y)


def NegativeBinomial(x, n, p):
    ok = x >= 0
    k = np.where(ok, x, 0)
    return _inside(ok, sp.gammaln(n + k) - sp.gammaln(n) - sp.gammaln(k + 1) + n * np.log(p) + sp.xlog1py(k, -p))


def Hypergeometric(x, N, k, n):
    ok = (x >= np.maximum(0, n + k - N)) & (x <= np.minimum(k, n))
    y = np.where(ok, x, np.maximum(0, n + k - N))
    return _inside(ok, lchoose(k, y) + lchoose(N - k, n - y) - lchoose(N, n))


def Poisson(x, lam):
    ok = x >= 0
    k = np.where(ok, x, 0)
    return _inside(ok, _xlogy(k, lam) - lam - sp.gammaln(k + 1))


def BetaBinomial(x, n, alpha, beta):
    ok = (x >= 0) & (x <= n)
    k = np.where(ok, x, 0)
    return _inside(ok, lchoose(n, k) + betaln(k + alpha, n - k + beta) - betaln(alpha, beta))


def BetaNegativeBinomial(x, n, alpha, beta):
    ok = x >= 0
    k = np.where(ok, x, 0)
    return _inside(ok, sp.gammaln(n + k) - sp.gammaln(n) - sp.gammaln(k + 1) + betaln(alpha + n, beta + k) - betaln(alpha, beta))


def Geometric(x, p, one_start=True):
    k = x - 1 if one_start else x
    ok = k >= 0
    return _inside(ok, np.log(p) + sp.xlog1py(np.where(ok, k, 0), -p))


def BetaGeometric(x, alpha, beta, one_start=True):
    k = x - 1 if one_start else x
    ok = k >= 0
    k = np.where(ok, k, 0)
    return _inside(ok, betaln(alpha + 1, beta + k) - betaln(alpha, beta))


def Normal(x, mu, sigma):
    return -0.5 * _LN2PI - np.log(sigma) - 0.5 * ((x - mu) / sigma) ** 2


def Uniform(x, low, high):
    return _inside((x >= low) & (x <= high), -np.log(high - low) + 0 * x)


def Pareto(x, x_m, alpha):
    ok = x >= x_m
    y = np.where(ok, x, x_m)
    return _inside(ok, np.log(alpha) + alpha * np.log(x_m) - (alpha + 1) * np.log(y))


def InverseGamma(x, alpha, beta):
    ok = x > 0
    y = np.where(ok, x, 1.0)
    return _inside(ok, alpha * np.log(beta) - sp.gammaln(alpha) - (alpha + 1) * np.log(y) - beta / y)


def ScaledInverseChiSquared(x, nu, sigma2):
    return InverseGamma(x, nu / 2, nu * sigma2 / 2)


def StudentT(x, mu, sigma, nu):
    z = (x - mu) / sigma
    return (sp.gammaln((nu + 1) / 2) - sp.gammaln(nu / 2) - 0.5 * np.log(nu * np.pi) - np.log(sigma)
            - (nu + 1) / 2 * np.log1p(z * z / nu))


def Lomax(x, alpha, lam):
    ok = x >= 0
    y = np.where(ok, x, 0.0)
    return _inside(ok, np.log(alpha) - np.log(lam) - (alpha + 1) * np.log1p(y / lam))


def CompoundGamma(x, alpha, beta, lam):
    ok = x >= 0
    y = np.where(ok, x, lam) / lam
    return _inside(ok, _xlogy(alpha - 1, y) - (alpha + beta) * np.log1p(y) - np.log(lam) - betaln(alpha, beta))


def VonMises(x, mu, kappa):
    return kappa * np.cos(x - mu) - np.log(2 * np.pi) - np.log(sp.i0e(kappa)) - kappa


def LogNormal(x, mu, sigma):
    ok = x > 0
    y = np.where(ok, x, 1.0)
    return _inside(ok, Normal(np.log(y), mu, sigma) - np.log(y))


def Weibull(x, beta, theta):
    ok = x >= 0
    y = np.where(ok, x, 1.0)
    return _inside(ok, np.log(beta) - np.log(theta) + _xlogy(beta - 1, y) - y ** beta / theta)


SCALAR = {f.__name__: f for f in (
    Beta, Binomial, Exponential, Gamma, NegativeBinomial, Hypergeometric, Poisson, BetaBinomial, BetaNegativeBinomial,
    Geometric, BetaGeometric, Normal, Uniform, Pareto, InverseGamma, ScaledInverseChiSquared, StudentT, Lomax,
    CompoundGamma, VonMises, LogNormal, Weibull)}
DISCRETE = {"Binomial", "NegativeBinomial", "Hypergeometric", "Poisson", "BetaBinomial", "BetaNegativeBinomial",
            "Geometric", "BetaGeometric"}
NO_CDF = {"BetaGeometric", "CompoundGamma"}


def ref_log(cls, fields, x):
    kw = {k: (v if k == "one_start" else _f(v)) for k, v in fields.items()}
    with np.errstate(all="ignore"):
        return SCALAR[cls](_f(x), **kw)


def ref_cdf(cls, fields, x):
    x = _f(x)
    kw = {k: (v if k == "one_start" else _f(v)) for k, v in fields.items()}
    with np.errstate(all="ignore"):
        if cls in DISCRETE:
            shape = np.broadcast_shapes(x.shape, *[np.shape(v) for v in kw.values()])
            top = int(max(0, np.nanmax(np.floor(x)))) if x.size else 0
            out = np.zeros(shape)
            fl = np.floor(x)
            for k in range(0, top + 1):
                out = out + np.where(k <= fl, np.exp(SCALAR[cls](np.asarray(float(k)), **kw)), 0.0)
            return np.minimum(out, 1.0)
        if cls == "Beta":
            return sp.betainc(kw["alpha"], kw["beta"], np.clip(x, 0, 1))
        if cls == "Exponential":
            return -np.expm1(-kw["lam"] * np.maximum(x, 0))
        if cls == "Gamma":
            return sp.gammainc(kw["alpha"], kw["beta"] * np.maximum(x, 0))
        if cls == "Normal":
            return sp.ndtr((x - kw["mu"]) / kw["sigma"])
        if cls == "Uniform":
            return np.clip((x - kw["low"]) / (kw["high"] - kw["low"]), 0, 1)
        if cls == "Pareto":
            return np.where(x < kw["x_m"], 0.0, 1 - (kw["x_m"] / np.maximum(x, kw["x_m"])) ** kw["alpha"])
        if cls == "InverseGamma":
            return np.where(x > 0, sp.gammaincc(kw["alpha"], kw["beta"] / np.where(x > 0, x, 1)), 0.0)
        if cls == "ScaledInverseChiSquared":
            return np.where(x > 0, sp.gammaincc(kw["nu"] / 2, kw["nu"] * kw["sigma2"] / 2 / np.where(x > 0, x, 1)), 0.0)
        if cls == "StudentT":
            return sp.stdtr(kw["nu"], (x - kw["mu"]) / kw["sigma"])
        if cls == "Lomax":
            return -np.expm1(-kw["alpha"] * np.log1p(np.maximum(x, 0) / kw["lam"]))
        if cls == "LogNormal":
            return np.where(x > 0, sp.ndtr((np.log(np.where(x > 0, x, 1)) - kw["mu"]) / kw["sigma"]), 0.0)
        if cls == "Weibull":
            return -np.expm1(-np.maximum(x, 0) ** kw["beta"] / kw["theta"])
        if cls == "VonMises":
            return _vonmises_cdf(x, kw["mu"], kw["kappa"])
        if cls == "UserLaplace":
            z = (x - kw["mu"]) / kw["b"]
            return np.where(z < 0, 0.5 * np.exp(np.minimum(z, 0)), 1 - 0.5 * np.exp(-np.maximum(z, 0)))
        if cls == "UserDiscreteLaplace":
            k, a = np.floor(x) - kw["mu"], kw["a"]
            return np.where(k < 0, np.exp(a * (np.minimum(k, 0) + 1)) / (np.exp(a) + 1), 1 - np.exp(-a * np.maximum(k, 0)) / (np.exp(a) + 1))
        if cls == "UserArcsine":
            return 2 / np.pi * np.arcsin(np.sqrt(np.clip((x - kw["low"]) / kw["width"], 0, 1)))
    raise KeyError(cls)


def _vonmises_cdf(x, mu, kappa):
    # the convention of the wrapped family: 1/2 at mu, and F(mu + d) = 1/2 + integral over [0, d]
    t, w = np.polynomial.legendre.leggauss(120)
    x, mu, kappa = np.broadcast_arrays(x, mu, kappa)
    d = (x - mu)[..., None]
    k = kappa[..., None]
    vals = np.exp(k * (np.cos(d / 2 * (t + 1)) - 1)) / (2 * np.pi * sp.i0e(k))
    return 0.5 + (d[..., 0] / 2) * (vals * w).sum(-1)


# ---------------------------------------------------------------- classes of a user
def UserLaplace(x, mu, b):
    return -np.abs(x - mu) / b - np.log(2 * b)


def UserDiscreteLaplace(x, mu, a):
    return np.log(np.tanh(a / 2)) - a * np.abs(x - mu)


def UserArcsine(x, low, width):
    z = (x - low) / width
    ok = (z >= 0) & (z <= 1)
    y = np.where(ok & (z > 0) & (z < 1), z, 0.5)
    return np.where(ok, np.where((z > 0) & (z < 1), -np.log(np.pi * width) - 0.5 * (np.log(y) + np.log1p(-y)), np.inf), -np.inf)


SCALAR.update({f.__name__: f for f in (UserLaplace, UserDiscreteLaplace, UserArcsine)})


# ---------------------------------------------------------------- vectors
def dirichlet_log(alpha, x):
    alpha, x = _f(alpha), _f(x)
    return float(sp.gammaln(alpha.sum()) - sp.gammaln(alpha).sum() + _xlogy(alpha - 1, x).sum())


def dirichlet_multinomial_log(alpha, n, x):
    alpha, x = _f(alpha), _f(x)
    if x.sum() != n:
        return -np.inf
    s = alpha.sum()
    return float(sp.gammaln(n + 1) - sp.gammaln(x + 1).sum() + sp.gammaln(s) - sp.gammaln(s + n)
                 + (sp.gammaln(alpha + x) - sp.gammaln(alpha)).sum())


def multinomial_log(n, p, x):
    p, x = _f(p), _f(x)
    return float(sp.gammaln(n + 1) - sp.gammaln(x + 1).sum() + _xlogy(x, p).sum())


def mvn_log(mu, cov, x):
    mu, cov, x = _f(mu), _f(cov), _f(x)
    d = x - mu
    sign, ld = np.linalg.slogdet(cov)
    return float(-0.5 * (len(d) * _LN2PI + ld + d @ np.linalg.solve(cov, d)))


def mvt_log(mu, sigma, nu, x):
    mu, sigma, x = _f(mu), _f(sigma), _f(x)
    d = x - mu
    p = len(d)
    sign, ld = np.linalg.slogdet(sigma)
    q = d @ np.linalg.solve(sigma, d)
    return float(sp.gammaln((nu + p) / 2) - sp.gammaln(nu / 2) - p / 2 * np.log(nu * np.pi) - 0.5 * ld
                 - (nu + p) / 2 * np.log1p(q / nu))
