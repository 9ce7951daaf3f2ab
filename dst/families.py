"""Registry of the likelihood/prior pairs: configurations, observations, the public calls, and independent references.

Configurations and observations are plain JSON.  References are written from the textbook statement of each model in
terms of the raw observations, not from the package's update formulas.
"""
import math
from fractions import Fraction

import numpy as np
from scipy import special as sp

from . import refdist as R


def lib():
    import conjugate.distributions as D
    import conjugate.models as M
    from . import userdists as U
    return U._All(D), M


def pos(rng, lo=0.3, hi=12.0):
    """A positive parameter: 'nice' (integral or quarter) or arbitrary; far out where the caller asks for a wide rng."""
    if getattr(rng, "wide", 0) and rng.random() < rng.wide:
        if rng.random() < 0.4:
            return float(rng.choice([1, 20, 100, 1000, 5000]))
        return float(f"{math.exp(rng.uniform(math.log(lo) - 5, math.log(hi) + 7)):.6g}")
    u = rng.random()
    if u < 0.35:
        return float(rng.randint(max(1, math.ceil(lo)), max(2, int(hi))))
    if u < 0.6:
        return max(lo, round(rng.uniform(lo, hi) * 4) / 4)
    v = math.exp(rng.uniform(math.log(lo), math.log(hi)))
    return v if rng.random() < 0.5 else round(v, 6)


def loc(rng, s=8.0):
    if getattr(rng, "wide", 0) and rng.random() < rng.wide:
        return float(rng.choice([-1, 1]) * rng.choice([20, 100, 1000, 12345.678]))
    u = rng.random()
    if u < 0.15:
        return 0.0
    if u < 0.5:
        return float(rng.randint(-int(s), int(s)))
    v = rng.uniform(-s, s)
    return v if rng.random() < 0.5 else round(v, 6)


def poisson_draw(rng, lam):
    # inversion; lam is small
    x, p, u = 0, math.exp(-lam), rng.random()
    c = p
    while u > c and x < 400:
        x += 1
        p *= lam / x
        c += p
    return x


def spd(rng, d, lo=0.4, hi=4.0):
    q, _ = np.linalg.qr(np.array([[rng.gauss(0, 1) for _ in range(d)] for _ in range(d)]))
    ev = [rng.uniform(lo, hi) for _ in range(d)]
    a = (q * ev) @ q.T
    return [[float(round(v, 9)) for v in r] for r in ((a + a.T) / 2)]


def fsum(xs):
    return math.fsum(xs)


class Family:
    """Base: elementwise families with lanes."""

    lanes = True
    single = False      # one observation per call
    integer = False     # integral observations
    exact = False       # only + - * / : works on Fractions and any number type
    predictive = None   # method name marker
    posterior_cls = None
    merge = {}          # stat -> 'sum' | 'max' | 'prod'
    density_only = False
    known = None
    nat_tol = 1e-9

    def __init__(self, name):
        self.name = name

    # -- plan level (plain JSON)
    def gen_prior(self, rng):
        raise NotImplementedError

    def gen_consts(self, rng):
        return {}

    def gen_obs(self, rng, c):
        raise NotImplementedError

    def gen_cfg(self, rng, shape=()):
        """Lane-wise priors and constants; some shared between the lanes (scalars), some broadcast along one axis."""
        shape = list(shape)
        K = int(np.prod(shape)) if shape else 1
        ps = [self.gen_prior(rng) for _ in range(K)]
        cs = [self.gen_consts(rng) for _ in range(K)]
        cfg = {"fam": self.name, "shape": shape, "prior": {}, "consts": {}}
        for dst, src in (("prior", ps), ("consts", cs)):
            for f in src[0]:
                if isinstance(src[0][f], (bool, str)):
                    for s in src:
                        s[f] = src[0][f]
                    cfg[dst][f] = src[0][f]
                    continue
                vals = [s[f] for s in src]
                if not shape:
                    cfg[dst][f] = vals[0]
                    continue
                u = rng.random()
                share = "full"
                if u < 0.25:
                    share = "scalar"
                elif u < 0.45 and len(shape) == 2:
                    share = "row" if rng.random() < 0.5 else "col"
                a = np.array(vals, dtype=float).reshape(shape)
                if share == "scalar":
                    cfg[dst][f] = float(a.flat[0])
                elif share == "row":
                    cfg[dst][f] = a[:1].tolist()
                elif share == "col":
                    cfg[dst][f] = a[:, :1].tolist()
                else:
                    cfg[dst][f] = a.tolist()
        cfg["consts_post"] = None
        return cfg

    def lane(self, cfg, which, i):
        """Parameters of lane i as floats."""
        out = {}
        for f, v in cfg[which].items():
            if isinstance(v, (bool, str)):
                out[f] = v
            elif cfg["shape"]:
                out[f] = float(np.broadcast_to(np.array(v, dtype=float), cfg["shape"]).flat[i])
            else:
                out[f] = v
        return out

    def nlanes(self, cfg):
        return int(np.prod(cfg["shape"])) if cfg["shape"] else 1

    # -- sufficient statistics of a list of observations of one lane
    def stats(self, obs, c):
        raise NotImplementedError

    def batch_stats(self, cfg, batch):
        """batch: list of [lane, obs] -> per-lane stats list"""
        K = self.nlanes(cfg)
        per = [[] for _ in range(K)]
        for ln, o in batch:
            per[ln].append(o)
        return [self.stats(per[i], self.lane(cfg, "consts", i)) for i in range(K)]

    def merge_stats(self, a, b):
        out = []
        for x, y in zip(a, b):
            m = {}
            for k, how in self.merge.items():
                m[k] = x[k] + y[k] if how == "sum" else (max(x[k], y[k]) if how == "max" else x[k] * y[k])
            out.append(m)
        return out

    # -- library level
    def num(self, v, kind, cfg):
        """A JSON number / nested list in the representation `kind`."""
        if isinstance(v, (bool, str)):
            return v
        if isinstance(v, list):
            a = np.array(v, dtype=float)
            if kind == "int" and np.all(a == np.round(a)) and np.all(np.abs(a) < 2 ** 53):
                a = a.astype(np.int64)
            if kind in ("series", "labelled") and a.ndim == 1:
                import pandas as pd
                return pd.Series(a, index=None if kind == "series" else [f"group {i}" for i in range(len(a))])
            return a
        if kind == "int":
            return int(v) if float(v) == int(v) else float(v)
        if kind == "np64":
            return np.float64(v)
        if kind == "npint":
            return np.int64(v) if float(v) == int(v) else np.float64(v)
        if kind == "arr0":
            return np.array(float(v))
        if kind == "arr1" and not cfg["shape"]:
            return np.array([float(v)])
        if kind == "frac":
            return Fraction(v)
        return float(v)

    def kinds(self, shape):
        if shape:
            return ["float", "int"] + (["int", "series", "labelled"] if len(shape) == 1 else [])
        return ["float", "int", "int", "np64", "npint", "arr0", "arr1"] + (["frac"] if self.exact else [])

    def prior_cls(self, cfg):
        return self.posterior_cls

    def make_prior(self, cfg, kind):
        D, M = lib()
        return getattr(D, self.prior_cls(cfg))(**{k: self.num(v, kind, cfg) for k, v in cfg["prior"].items()})

    def consts(self, cfg, kind):
        if "_objs" in cfg:      # the caller's own objects (ops.Prepared)
            return cfg["_objs"]
        return {k: self.num(v, kind, cfg) for k, v in cfg["consts"].items()}

    def stat_values(self, cfg, stats, kind, squeeze=False):
        out = {}
        for k in self.merge:
            vals = [s[k] for s in stats]
            if not cfg["shape"]:
                out[k] = self.num(vals[0], kind, cfg)
            elif squeeze and len(set(vals)) == 1 and kind != "series":
                out[k] = self.num(vals[0], kind, {"shape": []})
            else:
                out[k] = self.num(np.array(vals, dtype=float).reshape(cfg["shape"]).tolist(), kind, cfg)
        return out

    def call(self, M, prior, s, c):
        raise NotImplementedError

    def update(self, belief, cfg, values, kind="float"):
        D, M = lib()
        return self.call(M, belief, values, self.consts(cfg, kind))

    # -- comparison
    def natural(self, belief, cfg):
        """Public fields as float arrays over lanes, in the representation that is compared."""
        out = {}
        for f in self.fields:
            a = np.asarray(getattr(belief, f))
            a = np.array(a.tolist(), dtype=float) if a.dtype == object else a.astype(float)
            if cfg["shape"]:
                a = np.broadcast_to(a, cfg["shape"]).ravel()
            else:
                if a.size != 1:
                    raise Mismatch(f"{f} has shape {a.shape}, expected a single number")
                a = a.reshape(1)
            out[f] = a
        return out

    fields = ()

    def ref(self, p, c, obs):
        """-> {field: (value, scale)} for one lane."""
        raise NotImplementedError

    def expect_type(self, cfg):
        return self.prior_cls(cfg)

    def compare(self, belief, cfg, obs, extra_tol=1.0):
        """obs: list of [lane, obs] absorbed. -> None or text"""
        if type(belief).__name__ != self.expect_type(cfg):
            return f"type {type(belief).__name__}, expected {self.expect_type(cfg)}"
        try:
            nat = self.natural(belief, cfg)
        except Mismatch as e:
            return str(e)
        except (TypeError, ValueError) as e:
            return f"fields unusable: {type(e).__name__}: {e}"
        K = self.nlanes(cfg)
        per = [[] for _ in range(K)]
        for ln, o in obs:
            per[ln].append(o)
        for i in range(K):
            want = self.ref(self.lane(cfg, "prior", i), self.lane(cfg, "consts", i), per[i])
            for f, (v, scale) in want.items():
                got = nat[f][i]
                tol = self.nat_tol * extra_tol * (abs(v) + scale)
                if not (abs(got - v) <= tol):
                    return f"lane {i} {f}: got {got!r}, exact posterior {v!r} after {len(per[i])} observations"
        return None

    # -- predictive (None where the package offers none)
    def pred(self, belief, cfg, kind="float"):
        return None

    def logml(self, p, c, obs):
        """log marginal likelihood of the ordered observations of one lane"""
        raise NotImplementedError

    def noise(self, p, c, obs, x):
        """How far rounding may move the log predictive of x, beyond the tolerance that applies to all families."""
        return 0.0

    # -- log likelihood (density-only beliefs)
    def belief_log(self, belief, theta):
        return None


class Mismatch(Exception):
    pass


# ---------------------------------------------------------------- beta priors
class BetaFam(Family):
    posterior_cls = "Beta"
    fields = ("alpha", "beta")
    exact = True
    integer = True

    def gen_prior(self, rng):
        return {"alpha": pos(rng), "beta": pos(rng)}


class BinomialBeta(BetaFam):
    merge = {"n": "sum", "x": "sum"}

    def gen_obs(self, rng, c):
        n = rng.choice([0, 1, 1, 2, 3, 5, 8, 40])
        return [n, rng.randint(0, n)]

    def stats(self, obs, c):
        return {"n": sum(o[0] for o in obs), "x": sum(o[1] for o in obs)}

    def call(self, M, prior, s, c):
        return M.binomial_beta(n=s["n"], x=s["x"], prior=prior)

    def ref(self, p, c, obs):
        return {"alpha": (fsum([p["alpha"]] + [o[1] for o in obs]), 0),
                "beta": (fsum([p["beta"]] + [o[0] - o[1] for o in obs]), 0)}

    pred_n = True

    def pred(self, belief, cfg, kind="float", n=1):
        return lib()[1].binomial_beta_predictive(n=n, distribution=belief)

    def pred_x(self, o):
        return o[1]

    def pred_args(self, o):
        return {"n": o[0]}

    def logml(self, p, c, obs):
        s = sum(o[1] for o in obs)
        f = sum(o[0] - o[1] for o in obs)
        return float(R.betaln(p["alpha"] + s, p["beta"] + f) - R.betaln(p["alpha"], p["beta"])
                     + sum(R.lchoose(o[0], o[1]) for o in obs))


class BernoulliBeta(BetaFam):
    single = True
    lanes = False
    merge = {"x": "sum"}

    def gen_obs(self, rng, c):
        return rng.randint(0, 1)

    def stats(self, obs, c):
        return {"x": obs[0] if obs else 0}

    def call(self, M, prior, s, c):
        return M.bernoulli_beta(x=s["x"], prior=prior)

    def ref(self, p, c, obs):
        return {"alpha": (fsum([p["alpha"]] + obs), 0), "beta": (fsum([p["beta"]] + [1 - o for o in obs]), 0)}

    def pred(self, belief, cfg, kind="float"):
        return lib()[1].bernoulli_beta_predictive(distribution=belief)

    def logml(self, p, c, obs):
        s = sum(obs)
        return float(R.betaln(p["alpha"] + s, p["beta"] + len(obs) - s) - R.betaln(p["alpha"], p["beta"]))


class NegativeBinomialBeta(BetaFam):
    merge = {"n": "sum", "x": "sum"}

    def gen_consts(self, rng):
        return {"r": float(rng.randint(1, 6))}

    def gen_obs(self, rng, c):
        return rng.choice([0, 0, 1, 2, 3, 5, 9, 30])

    def stats(self, obs, c):
        return {"n": len(obs), "x": sum(obs)}

    def call(self, M, prior, s, c):
        return M.negative_binomial_beta(r=c["r"], n=s["n"], x=s["x"], prior=prior)

    def ref(self, p, c, obs):
        return {"alpha": (p["alpha"] + c["r"] * len(obs), 0), "beta": (fsum([p["beta"]] + obs), 0)}

    def pred(self, belief, cfg, kind="float"):
        return lib()[1].negative_binomial_beta_predictive(r=self.consts(cfg, kind)["r"], distribution=belief)

    def logml(self, p, c, obs):
        r = c["r"]
        return float(R.betaln(p["alpha"] + r * len(obs), p["beta"] + sum(obs)) - R.betaln(p["alpha"], p["beta"])
                     + sum(R.lchoose(r + o - 1, o) for o in obs))


class GeometricBeta(BetaFam):
    merge = {"x_total": "sum", "n": "sum"}

    def __init__(self, name, one_start):
        super().__init__(name)
        self.one_start = one_start

    def gen_obs(self, rng, c):
        return (1 if self.one_start else 0) + rng.choice([0, 0, 0, 1, 2, 4, 7, 25])

    def stats(self, obs, c):
        return {"x_total": sum(obs), "n": len(obs)}

    def call(self, M, prior, s, c):
        if self.one_start:
            return M.geometric_beta(x_total=s["x_total"], n=s["n"], prior=prior)
        return M.geometric_beta(x_total=s["x_total"], n=s["n"], prior=prior, one_start=False)

    def _fail(self, o):
        return o - 1 if self.one_start else o

    def ref(self, p, c, obs):
        return {"alpha": (p["alpha"] + len(obs), 0), "beta": (fsum([p["beta"]] + [self._fail(o) for o in obs]), 0)}

    def pred(self, belief, cfg, kind="float"):
        if self.one_start:
            return lib()[1].geometric_beta_predictive(distribution=belief)
        return lib()[1].geometric_beta_predictive(distribution=belief, one_start=False)

    def logml(self, p, c, obs):
        return float(R.betaln(p["alpha"] + len(obs), p["beta"] + sum(self._fail(o) for o in obs))
                     - R.betaln(p["alpha"], p["beta"]))


class HypergeometricBetaBinomial(Family):
    """Population of prior.n items; obs [n drawn, x successes]."""
    posterior_cls = "BetaBinomial"
    fields = ("n", "alpha", "beta")
    exact = True
    integer = True
    merge = {"x_total": "sum", "n": "sum"}
    known = "hypergeometric"
    lanes = False

    def gen_prior(self, rng):
        return {"n": float(rng.randint(5, 60)), "alpha": pos(rng), "beta": pos(rng)}

    def gen_obs(self, rng, c):
        n = rng.choice([1, 1, 2, 3])
        return [n, rng.randint(0, n)]

    def stats(self, obs, c):
        return {"n": sum(o[0] for o in obs), "x_total": sum(o[1] for o in obs)}

    def call(self, M, prior, s, c):
        return M.hypergeometric_beta_binomial(x_total=s["x_total"], n=s["n"], prior=prior)

    def ref(self, p, c, obs):
        return {"n": (p["n"], 0), "alpha": (fsum([p["alpha"]] + [o[1] for o in obs]), 0),
                "beta": (fsum([p["beta"]] + [o[0] - o[1] for o in obs]), 0)}


# ---------------------------------------------------------------- dirichlet
class DirichletFam(Family):
    posterior_cls = "Dirichlet"
    fields = ("alpha",)
    exact = True
    integer = True
    merge = {"x": "sum"}

    def __init__(self, name, model):
        super().__init__(name)
        self.model = model

    def gen_cfg(self, rng, shape=()):
        shape = list(shape)[:1]
        d = rng.randint(2, 5)
        K = shape[0] if shape else 1
        al = [[pos(rng) for _ in range(d)] for _ in range(K)]
        return {"fam": self.name, "shape": shape, "d": d, "prior": {"alpha": al if shape else al[0]}, "consts": {}}

    def lane(self, cfg, which, i):
        if which == "consts":
            return {"d": cfg["d"]}
        a = cfg["prior"]["alpha"]
        return {"alpha": a[i] if cfg["shape"] else a}

    def gen_obs(self, rng, c):
        n = 1 if self.model == "categorical_dirichlet" else rng.choice([0, 1, 2, 4, 9])
        x = [0] * c["d"]
        for _ in range(n):
            x[rng.randrange(c["d"])] += 1
        return x

    def stats(self, obs, c):
        return {"x": [sum(o[j] for o in obs) for j in range(c["d"])]}

    def merge_stats(self, a, b):
        return [{"x": [u + v for u, v in zip(x["x"], y["x"])]} for x, y in zip(a, b)]

    def kinds(self, shape):
        return ["float", "int"] if shape else ["float", "int", "list", "tuple", "listprior", "listdata"]

    def _vec(self, v, kind, role):
        if kind == "list" or (kind == "listprior" and role == "prior") or (kind == "listdata" and role == "data"):
            return list(v)
        if kind == "tuple":
            return tuple(v)
        a = np.array(v, dtype=float)
        return a.astype(np.int64) if kind == "int" and np.all(a == np.round(a)) else a

    def make_prior(self, cfg, kind):
        return lib()[0].Dirichlet(alpha=self._vec(cfg["prior"]["alpha"], kind, "prior"))

    def stat_values(self, cfg, stats, kind, squeeze=False):
        v = [s["x"] for s in stats] if cfg["shape"] else stats[0]["x"]
        return {"x": self._vec(v, kind, "data")}

    def call(self, M, prior, s, c):
        return getattr(M, self.model)(x=s["x"], prior=prior)

    def consts(self, cfg, kind):
        return {}

    def compare(self, belief, cfg, obs, extra_tol=1.0):
        if type(belief).__name__ != "Dirichlet":
            return f"type {type(belief).__name__}"
        want = np.array(cfg["prior"]["alpha"], dtype=float)
        for ln, o in obs:
            if cfg["shape"]:
                want[ln] += o
            else:
                want += o
        got = np.asarray(belief.alpha, dtype=float)
        if got.shape != want.shape:
            return f"alpha has shape {got.shape}, expected {want.shape}"
        if not np.all(np.abs(got - want) <= 1e-9 * np.abs(want)):
            return f"alpha: got {got.tolist()}, exact posterior {want.tolist()}"
        return None

    def pred(self, belief, cfg, kind="float", n=None):
        f = getattr(lib()[1], self.model + "_predictive")
        return f(distribution=belief) if n is None else f(distribution=belief, n=n)

    def logml(self, p, c, obs):
        a = np.array(p["alpha"], dtype=float)
        tot = np.array([sum(o[j] for o in obs) for j in range(len(a))], dtype=float)
        n = tot.sum()
        v = sp.gammaln(a.sum()) - sp.gammaln(a.sum() + n) + (sp.gammaln(a + tot) - sp.gammaln(a)).sum()
        for o in obs:
            v += sp.gammaln(sum(o) + 1) - sum(sp.gammaln(k + 1) for k in o)
        return float(v)


# ---------------------------------------------------------------- gamma priors
class GammaFam(Family):
    posterior_cls = "Gamma"
    fields = ("alpha", "beta")
    exact = True

    def gen_prior(self, rng):
        return {"alpha": pos(rng), "beta": pos(rng)}


class PoissonGamma(GammaFam):
    integer = True
    merge = {"x_total": "sum", "n": "sum"}

    def gen_obs(self, rng, c):
        return rng.choice([0, 0, 1, 2, 3, 5, 11, 40])

    def stats(self, obs, c):
        return {"x_total": sum(obs), "n": len(obs)}

    def call(self, M, prior, s, c):
        return M.poisson_gamma(x_total=s["x_total"], n=s["n"], prior=prior)

    def ref(self, p, c, obs):
        return {"alpha": (fsum([p["alpha"]] + obs), 0), "beta": (p["beta"] + len(obs), 0)}

    def pred(self, belief, cfg, kind="float", n=None):
        f = lib()[1].poisson_gamma_predictive
        return f(distribution=belief) if n is None else f(distribution=belief, n=n)

    def logml(self, p, c, obs):
        a, b = p["alpha"], p["beta"]
        return float(a * math.log(b) - math.lgamma(a) + math.lgamma(a + sum(obs))
                     - (a + sum(obs)) * math.log(b + len(obs)) - sum(math.lgamma(o + 1) for o in obs))


class PoissonExposure(PoissonGamma):
    """Counts over windows of different lengths: an observation is [count, length of its window]."""
    integer = False

    def gen_obs(self, rng, c):
        t = rng.choice([1, 1, 2, 24, 0.25, 0.5, 35 / 60, 7.5, round(rng.uniform(0.01, 40), 6)])
        return [poisson_draw(rng, min(60.0, t * rng.choice([0.2, 1.0, 4.0]))), t]

    def stats(self, obs, c):
        return {"x_total": sum(o[0] for o in obs), "n": fsum(o[1] for o in obs)}

    def ref(self, p, c, obs):
        return {"alpha": (fsum([p["alpha"]] + [o[0] for o in obs]), 0), "beta": (fsum([p["beta"]] + [o[1] for o in obs]), 0)}

    def pred_x(self, o):
        return o[0]

    def pred_args(self, o):
        return {"n": o[1]}

    def logml(self, p, c, obs):
        a, b = p["alpha"], p["beta"]
        x, t = sum(o[0] for o in obs), fsum(o[1] for o in obs)
        return float(a * math.log(b) - math.lgamma(a) + math.lgamma(a + x) - (a + x) * math.log(b + t)
                     + fsum(o[0] * math.log(o[1]) - math.lgamma(o[0] + 1) for o in obs))


class ExponentialGamma(GammaFam):
    merge = {"x_total": "sum", "n": "sum"}

    def gen_obs(self, rng, c):
        return round(rng.expovariate(rng.choice([0.1, 1, 5])), 6) + 1e-6

    def stats(self, obs, c):
        return {"x_total": fsum(obs), "n": len(obs)}

    def call(self, M, prior, s, c):
        return M.exponential_gamma(x_total=s["x_total"], n=s["n"], prior=prior)

    def ref(self, p, c, obs):
        return {"alpha": (p["alpha"] + len(obs), 0), "beta": (fsum([p["beta"]] + obs), 0)}

    def pred(self, belief, cfg, kind="float"):
        return lib()[1].exponential_gamma_predictive(distribution=belief)

    def logml(self, p, c, obs):
        a, b, n = p["alpha"], p["beta"], len(obs)
        return a * math.log(b) - math.lgamma(a) + math.lgamma(a + n) - (a + n) * math.log(b + fsum(obs))


class GammaKnownShape(GammaFam):
    merge = {"x_total": "sum", "n": "sum"}

    def gen_consts(self, rng):
        return {"alpha": pos(rng, 0.5, 6)}

    def gen_obs(self, rng, c):
        return round(rng.expovariate(rng.choice([0.1, 1, 5])), 6) + 1e-3

    def stats(self, obs, c):
        return {"x_total": fsum(obs), "n": len(obs)}

    def call(self, M, prior, s, c):
        return M.gamma_known_shape(x_total=s["x_total"], n=s["n"], alpha=c["alpha"], prior=prior)

    def ref(self, p, c, obs):
        return {"alpha": (fsum([p["alpha"]] + [c["alpha"]] * len(obs)), 0), "beta": (fsum([p["beta"]] + obs), 0)}

    def pred(self, belief, cfg, kind="float"):
        return lib()[1].gamma_known_shape_predictive(distribution=belief, alpha=self.consts(cfg, kind)["alpha"])

    def logml(self, p, c, obs):
        a, b, n, k = p["alpha"], p["beta"], len(obs), c["alpha"]
        return (a * math.log(b) - math.lgamma(a) + math.lgamma(a + n * k) - (a + n * k) * math.log(b + fsum(obs))
                - n * math.lgamma(k) + (k - 1) * fsum(math.log(o) for o in obs))


class InverseGammaKnownRate(GammaFam):
    """Inverse gamma observations with known shape: prior on the rate."""
    merge = {"reciprocal_x_total": "sum", "n": "sum"}

    def gen_consts(self, rng):
        return {"alpha": pos(rng, 0.5, 6)}

    def gen_obs(self, rng, c):
        return round(math.exp(rng.uniform(-2, 2)), 6)

    def stats(self, obs, c):
        return {"reciprocal_x_total": fsum(1 / o for o in obs), "n": len(obs)}

    def call(self, M, prior, s, c):
        return M.inverse_gamma_known_rate(reciprocal_x_total=s["reciprocal_x_total"], n=s["n"], alpha=c["alpha"],
                                          prior=prior)

    def ref(self, p, c, obs):
        return {"alpha": (fsum([p["alpha"]] + [c["alpha"]] * len(obs)), 0),
                "beta": (fsum([p["beta"]] + [1 / o for o in obs]), 0)}


class ParetoGamma(GammaFam):
    merge = {"n": "sum", "ln_x_total": "sum"}
    exact = False

    def gen_consts(self, rng):
        return {"x_m": pos(rng, 0.5, 6)}

    def gen_obs(self, rng, c):
        return round(c["x_m"] * math.exp(rng.expovariate(1.5)), 6) + 1e-6

    def stats(self, obs, c):
        return {"n": len(obs), "ln_x_total": fsum(math.log(o) for o in obs)}

    def call(self, M, prior, s, c):
        return M.pareto_gamma(n=s["n"], ln_x_total=s["ln_x_total"], x_m=c["x_m"], prior=prior)

    def ref(self, p, c, obs):
        l = [math.log(o / c["x_m"]) for o in obs]
        return {"alpha": (p["alpha"] + len(obs), 0),
                "beta": (fsum([p["beta"]] + l), len(obs) * abs(math.log(c["x_m"])) + fsum(abs(math.log(o)) for o in obs))}


# ---------------------------------------------------------------- normal, known variance / precision / mean
class NormalKnownVariance(Family):
    posterior_cls = "Normal"
    fields = ("mu", "sigma")
    merge = {"x_total": "sum", "n": "sum"}

    def __init__(self, name, precision=False):
        super().__init__(name)
        self.precision = precision

    def gen_prior(self, rng):
        return {"mu": loc(rng), "sigma": pos(rng, 0.3, 8)}

    def gen_consts(self, rng):
        return {"precision" if self.precision else "var": pos(rng, 0.3, 8)}

    def _var(self, c):
        return 1 / c["precision"] if self.precision else c["var"]

    def gen_obs(self, rng, c):
        return round(rng.gauss(rng.choice([-3, 0, 5]), math.sqrt(self._var(c))), 6)

    def stats(self, obs, c):
        return {"x_total": fsum(obs), "n": len(obs)}

    def call(self, M, prior, s, c):
        if self.precision:
            return M.normal_known_precision(x_total=s["x_total"], n=s["n"], precision=c["precision"], prior=prior)
        return M.normal_known_variance(x_total=s["x_total"], n=s["n"], var=c["var"], prior=prior)

    def ref(self, p, c, obs):
        w0, w = p["sigma"] ** -2, 1 / self._var(c)
        prec = w0 + len(obs) * w
        mu = (w0 * p["mu"] + w * fsum(obs)) / prec
        return {"mu": (mu, abs(p["mu"]) + max([abs(o) for o in obs], default=0)), "sigma": (prec ** -0.5, 0)}

    def pred(self, belief, cfg, kind="float"):
        D, M = lib()
        c = self.consts(cfg, kind)
        if self.precision:
            return M.normal_known_precision_predictive(precision=c["precision"], distribution=belief)
        return M.normal_known_variance_predictive(var=c["var"], distribution=belief)

    def logml(self, p, c, obs):
        n = len(obs)
        if not n:
            return 0.0
        v, s2 = Fraction(self._var(c)), Fraction(p["sigma"]) ** 2
        ss, d2 = _squares(obs, p["mu"])
        quad = ss / v + n * d2 / (v + n * s2)
        return -0.5 * (n * math.log(2 * math.pi * float(v)) + math.log1p(float(n * s2 / v)) + float(quad))

    def noise(self, p, c, obs, x):
        r = self.ref(p, c, obs)
        sd = math.hypot(r["sigma"][0], self._var(c) ** 0.5)
        # the rounding of the mean, seen by an observation many standard deviations away
        return (abs(x - r["mu"][0]) / sd + 1) * 1e-14 * (r["mu"][1] + abs(x)) / sd


def _squares(obs, mu):
    """Exactly: the sum of squares about the mean of obs, and the squared distance of that mean from mu."""
    f = [Fraction(o) for o in obs]
    m = sum(f) / len(f)
    return sum((o - m) ** 2 for o in f), (m - Fraction(mu)) ** 2


class NormalKnownMean(Family):
    merge = {"x_total": "sum", "x2_total": "sum", "n": "sum"}

    def __init__(self, name, scaled=False):
        super().__init__(name)
        self.scaled = scaled
        self.posterior_cls = "ScaledInverseChiSquared" if scaled else "InverseGamma"
        self.fields = ("nu", "sigma2") if scaled else ("alpha", "beta")
        self.exact = not scaled

    def gen_prior(self, rng):
        return {f: pos(rng, 0.6, 8) for f in self.fields}

    def gen_consts(self, rng):
        return {"mu": loc(rng)}

    def gen_obs(self, rng, c):
        return round(c["mu"] + rng.gauss(0, 2), 6)

    def stats(self, obs, c):
        return {"x_total": fsum(obs), "x2_total": fsum(o * o for o in obs), "n": len(obs)}

    def call(self, M, prior, s, c):
        return M.normal_known_mean(x_total=s["x_total"], x2_total=s["x2_total"], n=s["n"], mu=c["mu"], prior=prior)

    def _ig(self, p):
        return (p["nu"] / 2, p["nu"] * p["sigma2"] / 2) if self.scaled else (p["alpha"], p["beta"])

    def ref(self, p, c, obs):
        a, b = self._ig(p)
        a2 = a + len(obs) / 2
        b2 = fsum([b] + [0.5 * (o - c["mu"]) ** 2 for o in obs])
        sc = fsum(o * o + c["mu"] ** 2 for o in obs)
        if self.scaled:
            return {"nu": (2 * a2, 0), "sigma2": (b2 / a2, sc / a2)}
        return {"alpha": (a2, 0), "beta": (b2, sc)}

    def noise(self, p, c, obs, x):
        r = self.ref(p, c, obs)
        (a, _), (b, sc) = r.values()
        if self.scaled:
            a, b, sc = a / 2, b * a / 2, sc * a / 2
        sd = (b / a) ** 0.5
        return (a + 1) * (1e-14 * sc / b + 1e-14 * (abs(c["mu"]) + abs(x)) / sd * (1 + abs(x - c["mu"]) / sd))

    def pred(self, belief, cfg, kind="float"):
        return lib()[1].normal_known_mean_predictive(mu=self.consts(cfg, kind)["mu"], distribution=belief)

    def logml(self, p, c, obs):
        a, b = self._ig(p)
        n = len(obs)
        b2 = b + 0.5 * fsum((o - c["mu"]) ** 2 for o in obs)
        return (a * math.log(b) - math.lgamma(a) + math.lgamma(a + n / 2) - (a + n / 2) * math.log(b2)
                - n / 2 * math.log(2 * math.pi))


class NormalBoth(Family):
    """Unknown mean and variance."""
    merge = {"x_total": "sum", "x2_total": "sum", "n": "sum"}

    def __init__(self, name, cls, model="normal"):
        super().__init__(name)
        self.posterior_cls = cls
        self.model = model
        self.k = "nu" if cls == "NormalInverseGamma" else "lam"
        self.fields = ("mu", self.k, "alpha", "beta")
        self.exact = model == "normal"

    def gen_prior(self, rng):
        return {"mu": loc(rng, 4), self.k: pos(rng, 0.3, 6), "alpha": pos(rng, 0.6, 6), "beta": pos(rng, 0.5, 6)}

    def gen_obs(self, rng, c):
        v = round(rng.gauss(rng.choice([-2, 0, 3]), 1.5), 6)
        return math.exp(v / 2) if self.model == "log_normal" else v

    def _x(self, obs):
        return [math.log(o) for o in obs] if self.model == "log_normal" else obs

    def stats(self, obs, c):
        x = self._x(obs)
        return {"x_total": fsum(x), "x2_total": fsum(o * o for o in x), "n": len(x)}

    def call(self, M, prior, s, c):
        if self.model == "log_normal":
            return M.log_normal(ln_x_total=s["x_total"], ln_x2_total=s["x2_total"], n=s["n"], prior=prior)
        return getattr(M, self.model)(x_total=s["x_total"], x2_total=s["x2_total"], n=s["n"], prior=prior)

    def ref(self, p, c, obs):
        x = self._x(obs)
        n, k, m = len(x), p[self.k], p["mu"]
        if not n:
            return {"mu": (m, 1e-3 * abs(m)), self.k: (k, 0), "alpha": (p["alpha"], 0), "beta": (p["beta"], m * m * k)}
        xb = fsum(x) / n
        ss = fsum((o - xb) ** 2 for o in x)
        sc = fsum(o * o for o in x) + m * m * k
        return {"mu": ((k * m + n * xb) / (k + n), abs(m) + max(abs(o) for o in x)), self.k: (k + n, 0),
                "alpha": (p["alpha"] + n / 2, 0),
                "beta": (p["beta"] + 0.5 * ss + 0.5 * k * n / (k + n) * (xb - m) ** 2, sc)}

    def pred(self, belief, cfg, kind="float"):
        D, M = lib()
        if self.model == "normal_normal_inverse_gamma":
            return M.normal_normal_inverse_gamma_predictive(distribution=belief)
        return M.normal_predictive(distribution=belief)

    def pred_x(self, o):
        return math.log(o) if self.model == "log_normal" else o

    def logml(self, p, c, obs):
        n = len(obs)
        if not n:
            return 0.0
        # sigma2 integrated out of N(mu, sigma2 (I + 11'/k)) under IG(alpha, beta)
        a, b, k = p["alpha"], p["beta"], p[self.k]
        ss, d2 = _squares(self._x(obs), p["mu"])
        b2 = float(Fraction(b) + ss / 2 + Fraction(k) * n / (Fraction(k) + n) * d2 / 2)
        return (a * math.log(b) - math.lgamma(a) + math.lgamma(a + n / 2) - (a + n / 2) * math.log(b2)
                + 0.5 * math.log(k / (k + n)) - n / 2 * math.log(2 * math.pi))

    def noise(self, p, c, obs, x):
        r = self.ref(p, c, obs)
        a, (b, sc) = r["alpha"][0], r["beta"]
        sd = (b / a) ** 0.5
        return (a + 1) * (1e-14 * sc / b + 1e-14 * (r["mu"][1] + abs(x)) / sd * (1 + abs(x - r["mu"][0]) / sd))


# ---------------------------------------------------------------- uniform, weibull
class UniformPareto(Family):
    posterior_cls = "Pareto"
    fields = ("x_m", "alpha")
    merge = {"x_max": "max", "n": "sum"}

    def gen_prior(self, rng):
        return {"x_m": pos(rng, 0.3, 8) * rng.choice([1, 1, 1, 1, 300.0, 1e-6]), "alpha": pos(rng)}

    def gen_obs(self, rng, c):
        if rng.random() < 0.3:
            return round(rng.uniform(0.01, 1), 6) * rng.choice([1e-3, 1e-6, 1e-12])
        return round(rng.uniform(0.01, rng.choice([2, 9, 15])), 6)

    def stats(self, obs, c):
        return {"x_max": max(obs) if obs else 0.0, "n": len(obs)}

    def call(self, M, prior, s, c):
        return M.uniform_pareto(x_max=s["x_max"], n=s["n"], prior=prior)

    def ref(self, p, c, obs):
        return {"x_m": (max([p["x_m"]] + obs), 0), "alpha": (p["alpha"] + len(obs), 0)}


class Weibull(Family):
    posterior_cls = "InverseGamma"
    fields = ("alpha", "beta")
    merge = {"n": "sum", "x_beta_total": "sum"}
    exact = True

    def gen_prior(self, rng):
        return {"alpha": pos(rng), "beta": pos(rng)}

    def gen_obs(self, rng, c):
        return round(rng.expovariate(0.7), 6) + 1e-4

    SHAPE = 1.7

    def stats(self, obs, c):
        return {"n": len(obs), "x_beta_total": fsum(o ** self.SHAPE for o in obs)}

    def call(self, M, prior, s, c):
        return M.weibull_inverse_gamma_known_shape(n=s["n"], x_beta_total=s["x_beta_total"], prior=prior)

    def ref(self, p, c, obs):
        return {"alpha": (p["alpha"] + len(obs), 0), "beta": (fsum([p["beta"]] + [o ** self.SHAPE for o in obs]), 0)}


# ---------------------------------------------------------------- beliefs known up to a constant
class Prop(Family):
    """Compared through the change of the log density, and (where unambiguous) the hyper-parameters."""
    density_only = True
    has_lanes_density = True

    def grid(self):
        raise NotImplementedError

    def loglik(self, c, obs, theta):
        raise NotImplementedError

    def natural(self, belief, cfg):
        out = {}
        for f in self.fields:
            a = np.asarray(getattr(belief, f)).astype(float)
            out[f] = np.broadcast_to(a, cfg["shape"]).ravel() if cfg["shape"] else a.reshape(1)
        return out

    def compare(self, belief, cfg, obs, extra_tol=1.0):
        if type(belief).__name__ != self.posterior_cls:
            return f"type {type(belief).__name__}, expected {self.posterior_cls}"
        K = self.nlanes(cfg)
        per = [[] for _ in range(K)]
        for ln, o in obs:
            per[ln].append(o)
        prior = self.make_prior(cfg, "float")
        groups = self.grid(cfg)
        for gi, thetas in enumerate(groups):
            diff = []
            for th in thetas:
                a = np.asarray(self.belief_log(belief, th, cfg), dtype=float)
                b = np.asarray(self.belief_log(prior, th, cfg), dtype=float)
                a = np.broadcast_to(a, cfg["shape"] or a.shape).ravel()
                b = np.broadcast_to(b, cfg["shape"] or b.shape).ravel()
                want = [self.loglik(self.lane(cfg, "consts", i), per[i],
                                    {k: v[i] if isinstance(v, list) else v for k, v in th.items()}) for i in range(K)]
                diff.append((a - b, np.array(want), np.abs(a) + np.abs(b)))
            base = diff[0]
            for th, (d, w, s) in zip(thetas, diff):
                err = np.abs((d - base[0]) - (w - base[1]))
                tol = 1e-9 * extra_tol * (s + base[2] + np.abs(w) + np.abs(base[1]) + 1)
                if not np.all(err <= tol):
                    i = int(np.argmax(np.where(np.isnan(err), np.inf, err / tol)))
                    return (f"lane {i}: log density at {th} relative to {thetas[0]} changed by {(d - base[0])[i]!r}, "
                            f"the log likelihood of the {len(per[i])} absorbed observations by {(w - base[1])[i]!r}")
        return None


class GammaBoth(Prop):
    posterior_cls = "GammaProportional"
    fields = ("p", "q", "r", "s")
    merge = {"x_total": "sum", "x_prod": "prod", "n": "sum"}

    def gen_prior(self, rng):
        return {f: pos(rng, 0.5, 4) for f in self.fields}

    def gen_obs(self, rng, c):
        return round(math.exp(rng.gauss(0, 0.7)), 6)

    def stats(self, obs, c):
        return {"x_total": fsum(obs), "x_prod": math.prod(obs), "n": len(obs)}

    def call(self, M, prior, s, c):
        return M.gamma(x_total=s["x_total"], x_prod=s["x_prod"], n=s["n"], prior=prior)

    def grid(self, cfg):
        return [[{"alpha": a, "beta": b} for a in (0.5, 1.0, 2.5, 7.0) for b in (0.4, 1.0, 3.0)]]

    def belief_log(self, belief, th, cfg):
        return belief.approx_log_likelihood(th["alpha"], th["beta"])

    def loglik(self, c, obs, th):
        a, b = th["alpha"], th["beta"]
        return fsum(a * math.log(b) - math.lgamma(a) + (a - 1) * math.log(o) - b * o for o in obs)


class GammaKnownRate(Prop):
    posterior_cls = "GammaKnownRateProportional"
    fields = ("a", "b", "c")
    merge = {"x_prod": "prod", "n": "sum"}

    def gen_prior(self, rng):
        return {f: pos(rng, 0.5, 4) for f in self.fields}

    def gen_consts(self, rng):
        return {"beta": pos(rng, 0.5, 4)}

    def gen_obs(self, rng, c):
        return round(math.exp(rng.gauss(0, 0.7)), 6)

    def stats(self, obs, c):
        return {"x_prod": math.prod(obs), "n": len(obs)}

    def call(self, M, prior, s, c):
        return M.gamma_known_rate(x_prod=s["x_prod"], n=s["n"], beta=c["beta"], prior=prior)

    def grid(self, cfg):
        return [[{"alpha": a} for a in (0.5, 1.0, 2.5, 7.0)]]

    def belief_log(self, belief, th, cfg):
        return belief.approx_log_likelihood(th["alpha"], self.consts(cfg, "float")["beta"])

    def loglik(self, c, obs, th):
        a, b = th["alpha"], c["beta"]
        return fsum(a * math.log(b) - math.lgamma(a) + (a - 1) * math.log(o) - b * o for o in obs)


class BetaBoth(Prop):
    posterior_cls = "BetaProportional"
    fields = ("p", "q", "k")
    merge = {"x_prod": "prod", "one_minus_x_prod": "prod", "n": "sum"}

    def gen_prior(self, rng):
        return {"p": round(rng.uniform(0.1, 0.9), 4), "q": round(rng.uniform(0.1, 0.9), 4), "k": pos(rng, 0.5, 4)}

    def gen_obs(self, rng, c):
        return round(rng.uniform(0.05, 0.95), 6)

    def stats(self, obs, c):
        return {"x_prod": math.prod(obs), "one_minus_x_prod": math.prod(1 - o for o in obs), "n": len(obs)}

    def call(self, M, prior, s, c):
        return M.beta(x_prod=s["x_prod"], one_minus_x_prod=s["one_minus_x_prod"], n=s["n"], prior=prior)

    def grid(self, cfg):
        return [[{"alpha": a, "beta": b} for a in (0.5, 1.0, 2.5, 7.0) for b in (0.4, 1.0, 3.0)]]

    def belief_log(self, belief, th, cfg):
        return belief.approx_log_likelihood(th["alpha"], th["beta"])

    def loglik(self, c, obs, th):
        a, b = th["alpha"], th["beta"]
        return fsum((a - 1) * math.log(o) + (b - 1) * math.log1p(-o) - float(R.betaln(a, b)) for o in obs)


class VonMisesConcentration(Prop):
    posterior_cls = "VonMisesKnownConcentration"
    fields = ("a", "b")
    merge = {"cos_total": "sum", "sin_total": "sum", "n": "sum"}

    def gen_prior(self, rng):
        return {"a": pos(rng, 0.3, 6), "b": round(rng.uniform(-3.1, 3.1), 4)}

    def gen_consts(self, rng):
        return {"kappa": pos(rng, 0.3, 5)}

    def gen_obs(self, rng, c):
        return round(rng.uniform(-math.pi, math.pi), 6)

    def stats(self, obs, c):
        return {"cos_total": fsum(map(math.cos, obs)), "sin_total": fsum(map(math.sin, obs)), "n": len(obs)}

    def call(self, M, prior, s, c):
        return M.von_mises_known_concentration(cos_total=s["cos_total"], sin_total=s["sin_total"], n=s["n"],
                                               kappa=c["kappa"], prior=prior)

    def grid(self, cfg):
        return [[{"mu": m} for m in (0.0, -2.5, -1.0, 0.7, 1.9, 3.0)]]

    def belief_log(self, belief, th, cfg):
        return belief.log_likelihood(th["mu"])

    def loglik(self, c, obs, th):
        return fsum(c["kappa"] * math.cos(o - th["mu"]) for o in obs)

    def compare(self, belief, cfg, obs, extra_tol=1.0):
        bad = super().compare(belief, cfg, obs, extra_tol)
        if bad:
            return bad
        # log_likelihood is a normalised log density up to log(2 pi)
        K = self.nlanes(cfg)
        th = np.linspace(-np.pi, np.pi, 128, endpoint=False)
        v = np.array([np.broadcast_to(np.asarray(belief.log_likelihood(t), dtype=float), cfg["shape"] or (1,)).ravel()
                      for t in th])
        a = np.abs(self.natural(belief, cfg)["a"])
        tot = np.mean(np.exp(v), axis=0)
        if not np.all((np.abs(tot - 1) < 1e-6) | (a > 150)):
            return f"log density integrates to {tot.tolist()}, expected 1"
        return None


class VonMisesDirection(Prop):
    posterior_cls = "VonMisesKnownDirectionProportional"
    fields = ("c", "r")
    merge = {"centered_cos_total": "sum", "n": "sum"}

    def gen_prior(self, rng):
        return {"c": pos(rng, 0.5, 5), "r": round(rng.uniform(-1, 3), 4)}

    def gen_obs(self, rng, c):
        return round(rng.uniform(-math.pi, math.pi), 6)   # angle minus the known direction

    def stats(self, obs, c):
        return {"centered_cos_total": fsum(map(math.cos, obs)), "n": len(obs)}

    def call(self, M, prior, s, c):
        return M.von_mises_known_direction(centered_cos_total=s["centered_cos_total"], n=s["n"], prior=prior)

    def grid(self, cfg):
        return [[{"kappa": k} for k in (0.1, 0.7, 1.5, 4.0, 9.0)]]

    def belief_log(self, belief, th, cfg):
        return belief.approx_log_likelihood(th["kappa"])

    def loglik(self, c, obs, th):
        k = th["kappa"]
        return fsum(k * math.cos(o) - (math.log(sp.i0e(k)) + k) for o in obs)


# ---------------------------------------------------------------- vectors and matrices
class MatFam(Family):
    lanes = False
    nat_tol = 1e-8

    def gen_cfg(self, rng, shape=()):
        d = rng.choice([1, 2, 3, 4, 1, 2, 3, 4, 1, 2, 3, 4, 6])
        return {"fam": self.name, "shape": [], "d": d, "prior": self.gen_mprior(rng, d), "consts": self.gen_mconsts(rng, d)}

    def gen_mconsts(self, rng, d):
        return {}

    def lane(self, cfg, which, i):
        return dict(cfg[which], d=cfg["d"])

    def kinds(self, shape):
        return ["float"]

    def num(self, v, kind, cfg):
        return np.array(v, dtype=float) if isinstance(v, list) else v

    def natural(self, belief, cfg):
        return {f: np.asarray(getattr(belief, f), dtype=float) for f in self.fields}

    def consts(self, cfg, kind):
        if "_objs" in cfg:      # the caller's own objects (ops.Prepared)
            return cfg["_objs"]
        return {k: self.num(v, kind, cfg) for k, v in cfg["consts"].items()}

    def compare(self, belief, cfg, obs, extra_tol=1.0):
        if type(belief).__name__ != self.posterior_cls:
            return f"type {type(belief).__name__}, expected {self.posterior_cls}"
        try:
            nat = self.natural(belief, cfg)
        except (TypeError, ValueError) as e:
            return f"fields unusable: {type(e).__name__}: {e}"
        want = self.ref(cfg["prior"], dict(cfg["consts"], d=cfg["d"]), [o for _, o in obs])
        for f, (v, scale) in want.items():
            v = np.asarray(v, dtype=float)
            if nat[f].shape != v.shape:
                return f"{f} has shape {nat[f].shape}, expected {v.shape}"
            tol = self.nat_tol * extra_tol * (np.abs(v).max() + scale)
            if not np.all(np.abs(nat[f] - v) <= tol):
                return f"{f}: got {nat[f].tolist()}, exact posterior {v.tolist()} after {len(obs)} observations"
        return None


def _vec(rng, d, s=2.0):
    return [round(rng.gauss(0, s), 6) for _ in range(d)]


def _mat(rows, d):
    return np.array(rows, dtype=float).reshape(len(rows), d)


class LinearRegression(MatFam):
    posterior_cls = "NormalInverseGamma"
    fields = ("mu", "delta_inverse", "alpha", "beta")
    merge = {"X": "cat", "y": "cat"}

    def gen_mprior(self, rng, d):
        return {"mu": _vec(rng, d, 1), "delta_inverse": spd(rng, d), "alpha": pos(rng, 0.6, 6), "beta": pos(rng, 0.5, 6)}

    def gen_obs(self, rng, c):
        return [_vec(rng, c["d"], 1), round(rng.gauss(0, 2), 6)]

    def stats(self, obs, c):
        return {"X": [o[0] for o in obs], "y": [o[1] for o in obs]}

    def merge_stats(self, a, b):
        return [{k: a[0][k] + b[0][k] for k in ("X", "y")}]

    def stat_values(self, cfg, stats, kind, squeeze=False):
        return {"X": _mat(stats[0]["X"], cfg["d"]), "y": np.array(stats[0]["y"], dtype=float)}

    def call(self, M, prior, s, c):
        return M.linear_regression(X=s["X"], y=s["y"], prior=prior)

    def ref(self, p, c, obs):
        X, y = _mat([o[0] for o in obs], c["d"]), np.array([o[1] for o in obs])
        V0, m0 = np.array(p["delta_inverse"]), np.array(p["mu"])
        P0 = np.linalg.inv(V0)
        P = P0 + X.T @ X
        m = np.linalg.solve(P, P0 @ m0 + X.T @ y)
        r = y - X @ m
        beta = p["beta"] + 0.5 * (r @ r + (m - m0) @ P0 @ (m - m0))
        return {"mu": (m, 1), "delta_inverse": (np.linalg.inv(P), 0), "alpha": (p["alpha"] + len(obs) / 2, 0),
                "beta": (beta, float(y @ y + m0 @ P0 @ m0))}

    def pred(self, belief, cfg, kind="float", X=None):
        return lib()[1].linear_regression_predictive(distribution=belief, X=X if isinstance(X, np.ndarray) else np.array(X, dtype=float))

    def pred_args(self, o):
        return {"X": [o[0]]}

    def pred_x(self, o):
        return [o[1]]

    def logml(self, p, c, obs):
        if not obs:
            return 0.0
        X, y = _mat([o[0] for o in obs], c["d"]), [o[1] for o in obs]
        V0, m0 = np.array(p["delta_inverse"]), np.array(p["mu"])
        s = (np.eye(len(y)) + X @ V0 @ X.T) * p["beta"] / p["alpha"]
        return R.mvt_log(X @ m0, s, 2 * p["alpha"], y)


class MvnKnownCov(MatFam):
    posterior_cls = "MultivariateNormal"
    fields = ("mu", "cov")
    merge = {"n": "sum", "x_bar": "mean"}

    def __init__(self, name, precision=False):
        super().__init__(name)
        self.precision = precision

    def gen_mprior(self, rng, d):
        return {"mu": _vec(rng, d), "cov": spd(rng, d)}

    def gen_mconsts(self, rng, d):
        return {"precision" if self.precision else "cov": spd(rng, d)}

    def _cov(self, c):
        return np.linalg.inv(np.array(c["precision"])) if self.precision else np.array(c["cov"])

    def gen_obs(self, rng, c):
        return _vec(rng, c["d"])

    def stats(self, obs, c):
        d = c["d"]
        return {"n": len(obs), "tot": [fsum(o[j] for o in obs) for j in range(d)]}

    def merge_stats(self, a, b):
        return [{"n": a[0]["n"] + b[0]["n"], "tot": [u + v for u, v in zip(a[0]["tot"], b[0]["tot"])]}]

    def stat_values(self, cfg, stats, kind, squeeze=False):
        n = stats[0]["n"]
        return {"n": n, "x_bar": np.array(stats[0]["tot"], dtype=float) / max(n, 1)}

    def call(self, M, prior, s, c):
        if self.precision:
            return M.multivariate_normal_known_precision(n=s["n"], x_bar=s["x_bar"], precision=c["precision"], prior=prior)
        return M.multivariate_normal_known_covariance(n=s["n"], x_bar=s["x_bar"], cov=c["cov"], prior=prior)

    def ref(self, p, c, obs):
        # Kalman form, one observation at a time
        m, S = np.array(p["mu"]), np.array(p["cov"])
        V = self._cov(c)
        n = len(obs)
        if n:
            xb = np.array([fsum(o[j] for o in obs) / n for j in range(len(m))])
            K = S @ np.linalg.inv(S + V / n)
            m = m + K @ (xb - m)
            S = S - K @ S
        return {"mu": (m, 2), "cov": (S, float(np.abs(np.array(p["cov"])).max()) if n else 0)}

    def pred(self, belief, cfg, kind="float"):
        D, M = lib()
        c = self.consts(cfg, kind)
        if self.precision:
            return M.multivariate_normal_known_precision_predictive(distribution=belief, precision=c["precision"])
        return M.multivariate_normal_known_covariance_predictive(distribution=belief, cov=c["cov"])

    def logml(self, p, c, obs):
        n = len(obs)
        if not n:
            return 0.0
        V, S = self._cov(c), np.array(p["cov"])
        cov = np.kron(np.eye(n), V) + np.kron(np.ones((n, n)), S)
        return R.mvn_log(np.tile(p["mu"], n), cov, np.array(obs).ravel())


class MvnKnownMean(MatFam):
    nat_tol = 1e-11
    posterior_cls = "InverseWishart"
    fields = ("nu", "psi")
    merge = {"X": "cat"}

    def gen_mprior(self, rng, d):
        return {"nu": d + pos(rng, 0.5, 5), "psi": spd(rng, d)}

    def gen_mconsts(self, rng, d):
        return {"mu": _vec(rng, d)}

    def gen_obs(self, rng, c):
        return _vec(rng, c["d"])

    def stats(self, obs, c):
        return {"X": list(obs)}

    def merge_stats(self, a, b):
        return [{"X": a[0]["X"] + b[0]["X"]}]

    def stat_values(self, cfg, stats, kind, squeeze=False):
        return {"X": _mat(stats[0]["X"], cfg["d"])}

    def call(self, M, prior, s, c):
        return M.multivariate_normal_known_mean(X=s["X"], mu=c["mu"], prior=prior)

    def ref(self, p, c, obs):
        psi = np.array(p["psi"])
        for o in obs:
            r = np.array(o) - np.array(c["mu"])
            psi = psi + np.outer(r, r)
        return {"nu": (p["nu"] + len(obs), 0), "psi": (psi, 0)}


class MvnBoth(MatFam):
    nat_tol = 1e-10
    posterior_cls = "NormalInverseWishart"
    fields = ("mu", "kappa", "nu", "psi")
    merge = {"X": "cat"}

    def gen_mprior(self, rng, d):
        return {"mu": _vec(rng, d, 1), "kappa": pos(rng, 0.4, 5), "nu": d + pos(rng, 0.5, 5), "psi": spd(rng, d)}

    def gen_obs(self, rng, c):
        return _vec(rng, c["d"])

    stats = MvnKnownMean.stats
    merge_stats = MvnKnownMean.merge_stats
    stat_values = MvnKnownMean.stat_values

    def call(self, M, prior, s, c):
        return M.multivariate_normal(X=s["X"], prior=prior)

    def ref(self, p, c, obs):
        # one observation at a time
        m, k, nu, psi = np.array(p["mu"]), p["kappa"], p["nu"], np.array(p["psi"])
        for o in obs:
            r = np.array(o) - m
            psi = psi + np.outer(r, r) * k / (k + 1)
            m = m + r / (k + 1)
            k, nu = k + 1, nu + 1
        return {"mu": (m, 1), "kappa": (p["kappa"] + len(obs), 0), "nu": (p["nu"] + len(obs), 0), "psi": (psi, 0)}

    def pred(self, belief, cfg, kind="float"):
        return lib()[1].multivariate_normal_predictive(distribution=belief)

    def logml(self, p, c, obs):
        n = len(obs)
        if not n:
            return 0.0
        d = c["d"]
        r = self.ref(p, c, obs)
        ld0 = np.linalg.slogdet(np.array(p["psi"]))[1]
        ld = np.linalg.slogdet(r["psi"][0])[1]
        nu0, nu = p["nu"], p["nu"] + n
        return float(-n * d / 2 * math.log(math.pi) + sp.multigammaln(nu / 2, d) - sp.multigammaln(nu0 / 2, d)
                     + nu0 / 2 * ld0 - nu / 2 * ld + d / 2 * math.log(p["kappa"] / (p["kappa"] + n)))


ALL = [
    BinomialBeta("binomial_beta"), BernoulliBeta("bernoulli_beta"), NegativeBinomialBeta("negative_binomial_beta"),
    HypergeometricBetaBinomial("hypergeometric_beta_binomial"),
    GeometricBeta("geometric_beta", True), GeometricBeta("geometric_beta_zero", False),
    DirichletFam("categorical_dirichlet", "categorical_dirichlet"),
    DirichletFam("multinomial_dirichlet", "multinomial_dirichlet"),
    PoissonGamma("poisson_gamma"), ExponentialGamma("exponential_gamma"), GammaKnownShape("gamma_known_shape"),
    InverseGammaKnownRate("inverse_gamma_known_rate"),
    NormalKnownVariance("normal_known_variance"), NormalKnownVariance("normal_known_precision", True),
    NormalKnownMean("normal_known_mean_ig"), NormalKnownMean("normal_known_mean_chi2", True),
    NormalBoth("normal_nig", "NormalInverseGamma"), NormalBoth("normal_ng", "NormalGamma"),
    NormalBoth("normal_deprecated", "NormalInverseGamma", "normal_normal_inverse_gamma"),
    NormalBoth("log_normal_nig", "NormalInverseGamma", "log_normal"), NormalBoth("log_normal_ng", "NormalGamma", "log_normal"),
    LinearRegression("linear_regression"), UniformPareto("uniform_pareto"), ParetoGamma("pareto_gamma"),
    GammaBoth("gamma"), GammaKnownRate("gamma_known_rate"), BetaBoth("beta"),
    VonMisesConcentration("von_mises_known_concentration"), VonMisesDirection("von_mises_known_direction"),
    MvnKnownCov("multivariate_normal_known_covariance"), MvnKnownCov("multivariate_normal_known_precision", True),
    MvnKnownMean("multivariate_normal_known_mean"), MvnBoth("multivariate_normal"),
    Weibull("weibull_inverse_gamma_known_shape"),
]
# variants met only by the observation streams of C01 and C02
EXTRA = [PoissonExposure("poisson_exposure")]
BY_NAME = {f.name: f for f in ALL + EXTRA}
