"""C06: self-simulated worlds.  Truth, observations and posterior draws come from the library's own samplers; what reaches the
learner is decided by a simulated network (loss, delay, reordering, batching, crash/restore) or by a policy that looks at the
current belief (Thompson sampling).  Across the worlds of a run the truth must be a uniform quantile of the belief.

A run is one population of worlds.  A statistic is a violation when it is not uniform in the population (p < 1e-4) and again not in a
six times larger population of fresh worlds (p < 1e-7).
"""
import math
import pickle
import warnings

import numpy as np
from scipy import special as sp

from .. import core
from .. import dists as X
from .. import refdist as R
from ..families import lib, pos, loc, spd

ID = "C06"
RUNS = {"quick": 1800, "thorough": 8000}
CHUNK = 4
BUDGET_S = {"quick": 260, "thorough": 3000}
RULE = ("a population of at least 60 independent worlds (or draws) in which at least one statistic was tested for uniformity; "
        "distinct by hash of all statistics")
REAL = ["conjugate.models, conjugate.distributions samplers, densities and cdfs, conjugate._beta_geometric, conjugate._compound_gamma",
        "numpy/scipy generators"]
STUB = ["network between world and learner", "crash and restore of the learner", "the policy choosing the next action"]
ASSUMPTIONS = ["loss, delay and batching are independent of the message content (the policy may depend on the belief only)",
               "statistical: a population of W worlds reveals quantile shifts of about 1.4/sqrt(W) in the first and half of that in the confirming stage"]
PROBES = ["sbc-lanes", "sbc-scalar", "thompson", "joint-law", "joint-sbc", "law", "component", "matrix-sbc", "dirichlet", "predictive", "two-step"]

P1, P2 = 1e-4, 1e-7


# ---------------------------------------------------------------- statistics
def pvalue(u):
    u = np.asarray(u, dtype=float).ravel()
    ok = np.isfinite(u)
    if np.mean(ok) < 0.995:
        return 0.0
    u = u[ok]        # (a world whose observations overflowed)
    n = len(u)
    s = np.sort(u)
    d = max(np.max(np.arange(1, n + 1) / n - s), np.max(s - np.arange(n) / n))
    p = float(sp.kolmogorov(d * (math.sqrt(n) + 0.12 + 0.11 / math.sqrt(n))))
    k = 16 if n >= 160 else 8
    c = np.histogram(np.clip(u, 0, 1 - 1e-12), bins=k, range=(0, 1))[0]
    e = n / k
    p2 = float(sp.gammaincc((k - 1) / 2, ((c - e) ** 2 / e).sum() / 2))
    return min(1.0, 2 * min(p, p2))


def rank_u(x, draws, phys):
    """x: (W,), draws: (L, W)"""
    L = draws.shape[0]
    less = (draws < x).sum(0)
    ties = (draws == x).sum(0)
    r = less + np.floor(phys.random_sample(x.shape) * (ties + 1))
    return (r + phys.random_sample(x.shape)) / (L + 1)


class Streams:
    """random_state arguments for successive sampler calls."""

    def __init__(self, form, seed):
        self.form = form
        self.r = np.random.RandomState(seed)
        if form == "RandomState":
            self.g = np.random.RandomState(seed ^ 0x5EED)
        elif form == "Generator":
            self.g = np.random.Generator(np.random.PCG64(seed))
        else:
            self.g = None
            np.random.seed(seed ^ 0xA3B1)

    def __call__(self):
        if self.form == "int":
            return int(self.r.randint(2 ** 31 - 1))
        return self.g


# ---------------------------------------------------------------- elementwise worlds
def _sum(sel, x):
    return np.where(sel, x, 0).sum(0)


def _cnt(sel):
    return sel.sum(0)


def M_():
    return lib()[1]


class El:
    """One likelihood/prior pair of scalars: prior class, likelihood distribution, update from masked observations."""

    def __init__(self, prior, consts, lik, upd, pred=None, disc=False, best=max, pred_cdf=True):
        self.prior, self.consts, self.lik, self.upd, self.pred, self.disc = prior, consts, lik, upd, pred, disc
        self.pred_cdf = pred_cdf


def ab(lo=1.0, hi=8.0, cls="Gamma"):
    return lambda r: (cls, {"alpha": pos(r, lo, hi), "beta": pos(r, 0.8, hi)})


EL = {
    "binomial_beta": El(ab(cls="Beta"), lambda r: {"m": r.choice([1, 2, 5, 12])},
                        lambda D, th, c: D.Binomial(n=c["m"], p=th),
                        lambda M, s, x, c, b: M.binomial_beta(n=c["m"] * _cnt(s), x=_sum(s, x), prior=b),
                        lambda M, b, c: M.binomial_beta_predictive(n=c["m"], distribution=b), True),
    "bernoulli_beta": El(ab(cls="Beta"), lambda r: {},
                         lambda D, th, c: D.Binomial(n=1, p=th),
                         lambda M, s, x, c, b: M.binomial_beta(n=_cnt(s), x=_sum(s, x), prior=b),
                         lambda M, b, c: M.bernoulli_beta_predictive(distribution=b), True),
    "negative_binomial_beta": El(ab(2.5, 9, cls="Beta"), lambda r: {"r": r.randint(1, 4)},
                                 lambda D, th, c: D.NegativeBinomial(n=c["r"], p=th),
                                 lambda M, s, x, c, b: M.negative_binomial_beta(r=c["r"], n=_cnt(s), x=_sum(s, x), prior=b),
                                 lambda M, b, c: M.negative_binomial_beta_predictive(r=c["r"], distribution=b), True, pred_cdf=False),
    "geometric_beta": El(ab(2.5, 9, cls="Beta"), lambda r: {},
                         lambda D, th, c: D.Geometric(p=th),
                         lambda M, s, x, c, b: M.geometric_beta(n=_cnt(s), x_total=_sum(s, x), prior=b),
                         lambda M, b, c: M.geometric_beta_predictive(distribution=b), True, pred_cdf=False),
    "geometric_beta_zero": El(ab(2.5, 9, cls="Beta"), lambda r: {},
                              lambda D, th, c: D.Geometric(p=th, one_start=False),
                              lambda M, s, x, c, b: M.geometric_beta(n=_cnt(s), x_total=_sum(s, x), prior=b, one_start=False),
                              lambda M, b, c: M.geometric_beta_predictive(distribution=b, one_start=False), True, pred_cdf=False),
    "poisson_gamma": El(ab(), lambda r: {},
                        lambda D, th, c: D.Poisson(lam=th),
                        lambda M, s, x, c, b: M.poisson_gamma(n=_cnt(s), x_total=_sum(s, x), prior=b),
                        lambda M, b, c: M.poisson_gamma_predictive(distribution=b), True),
    "exponential_gamma": El(ab(1.5), lambda r: {},
                            lambda D, th, c: D.Exponential(lam=th),
                            lambda M, s, x, c, b: M.exponential_gamma(n=_cnt(s), x_total=_sum(s, x), prior=b),
                            lambda M, b, c: M.exponential_gamma_predictive(distribution=b)),
    "gamma_known_shape": El(ab(1.5), lambda r: {"alpha": pos(r, 0.8, 4)},
                            lambda D, th, c: D.Gamma(alpha=c["alpha"], beta=th),
                            lambda M, s, x, c, b: M.gamma_known_shape(n=_cnt(s), x_total=_sum(s, x), alpha=c["alpha"], prior=b),
                            lambda M, b, c: M.gamma_known_shape_predictive(distribution=b, alpha=c["alpha"]), pred_cdf=False),
    "inverse_gamma_known_rate": El(ab(1.5), lambda r: {"alpha": pos(r, 0.8, 4)},
                                   lambda D, th, c: D.InverseGamma(alpha=c["alpha"], beta=th),
                                   lambda M, s, x, c, b: M.inverse_gamma_known_rate(n=_cnt(s), reciprocal_x_total=_sum(s, 1 / x),
                                                                                    alpha=c["alpha"], prior=b)),
    "pareto_gamma": El(lambda r: ("Gamma", {"alpha": pos(r, 4, 9), "beta": pos(r, 0.8, 2)}), lambda r: {"x_m": pos(r, 0.5, 4)},
                       lambda D, th, c: D.Pareto(x_m=c["x_m"], alpha=th),
                       lambda M, s, x, c, b: M.pareto_gamma(n=_cnt(s), ln_x_total=_sum(s, np.log(x)), x_m=c["x_m"], prior=b)),
    "normal_known_variance": El(lambda r: ("Normal", {"mu": loc(r, 5), "sigma": pos(r, 0.4, 5)}), lambda r: {"var": pos(r, 0.4, 8)},
                                lambda D, th, c: D.Normal(mu=th, sigma=c["var"] ** 0.5),
                                lambda M, s, x, c, b: M.normal_known_variance(n=_cnt(s), x_total=_sum(s, x), var=c["var"], prior=b),
                                lambda M, b, c: M.normal_known_variance_predictive(var=c["var"], distribution=b)),
    "normal_known_precision": El(lambda r: ("Normal", {"mu": loc(r, 5), "sigma": pos(r, 0.4, 5)}), lambda r: {"precision": pos(r, 0.2, 4)},
                                 lambda D, th, c: D.Normal.from_mean_and_precision(mean=th, precision=c["precision"]),
                                 lambda M, s, x, c, b: M.normal_known_precision(n=_cnt(s), x_total=_sum(s, x),
                                                                                precision=c["precision"], prior=b),
                                 lambda M, b, c: M.normal_known_precision_predictive(precision=c["precision"], distribution=b)),
    "normal_known_mean_ig": El(ab(1.5, cls="InverseGamma"), lambda r: {"mu": loc(r, 4)},
                               lambda D, th, c: D.Normal.from_mean_and_variance(mean=c["mu"], variance=th),
                               lambda M, s, x, c, b: M.normal_known_mean(n=_cnt(s), x_total=_sum(s, x), x2_total=_sum(s, x * x),
                                                                         mu=c["mu"], prior=b),
                               lambda M, b, c: M.normal_known_mean_predictive(mu=c["mu"], distribution=b)),
    "normal_known_mean_chi2": El(lambda r: ("ScaledInverseChiSquared", {"nu": pos(r, 2, 12), "sigma2": pos(r, 0.4, 6)}),
                                 lambda r: {"mu": loc(r, 4)},
                                 lambda D, th, c: D.Normal.from_mean_and_variance(mean=c["mu"], variance=th),
                                 lambda M, s, x, c, b: M.normal_known_mean(n=_cnt(s), x_total=_sum(s, x), x2_total=_sum(s, x * x),
                                                                           mu=c["mu"], prior=b),
                                 lambda M, b, c: M.normal_known_mean_predictive(mu=c["mu"], distribution=b)),
    "uniform_pareto": El(lambda r: ("Pareto", {"x_m": pos(r, 0.4, 6), "alpha": pos(r, 1.5, 9)}), lambda r: {},
                         lambda D, th, c: D.Uniform(low=0.0, high=th),
                         lambda M, s, x, c, b: M.uniform_pareto(n=_cnt(s), x_max=np.where(s, x, 0).max(0), prior=b)),
    "weibull": El(ab(1.5, cls="InverseGamma"), lambda r: {"beta": pos(r, 0.6, 3)},
                  lambda D, th, c: D.Weibull(beta=c["beta"], theta=th),
                  lambda M, s, x, c, b: M.weibull_inverse_gamma_known_shape(n=_cnt(s), x_beta_total=_sum(s, x ** c["beta"]), prior=b)),
}


def deliver(phys, T, W, net):
    """-> list of (T, W) masks, one per batch processed by the learner; each message is absorbed at most once."""
    lost = phys.random_sample((T, W)) < net["loss"]
    when = np.arange(T)[:, None] + phys.exponential(net["delay"], (T, W))
    edges = np.linspace(0, T + 3 * net["delay"], net["batches"] + 1)[1:]
    edges[-1] = np.inf
    slot = np.searchsorted(edges, when)
    return [~lost & (slot == b) for b in range(net["batches"])], int(lost.sum()), int(((slot[1:] < slot[:-1]) & ~lost[1:]).sum())


def as_num(v):
    v = np.asarray(v)
    return v.item() if v.shape == (1,) else v


def exp_el(plan, W, phys, S, ctx, scalar):
    D, M = lib()
    e = EL[plan["fam"]]
    c = plan["consts"]
    cls, f = plan["prior"]
    T = plan["T"]
    net = plan["net"]
    out = {}
    if not scalar:
        prior = getattr(D, cls)(**f)
        th = np.asarray(prior.dist.rvs(size=W, random_state=S()), dtype=float)
        x = np.asarray(e.lik(D, th, c).dist.rvs(size=(T, W), random_state=S()))
        masks, lost, reord = deliver(phys, T, W, net)
        b = prior
        for m in masks:
            b = e.upd(M, m, x, c, b)
            if net["crash"]:
                b = pickle.loads(pickle.dumps(b))
        count(ctx, lost, reord, net)
        out["belief cdf of the truth"] = b.dist.cdf(th)
        out["rank of the truth among belief draws"] = rank_u(th, np.asarray(b.dist.rvs(size=(19, W), random_state=S())), phys)
        x1 = np.asarray(e.lik(D, th, c).dist.rvs(size=W, random_state=S()), dtype=float)
        if e.pred:
            p = e.pred(M, b, c)
            predictive(out, e, p, x1, W, phys, S, ctx, plan.get("bare"))
            ctx.hit("predictive")
        if plan.get("bare"):
            # the documented way to predictive draws: parameters from the belief, then one draw of the model at each
            draws = []
            for _ in range(19):
                tp = np.asarray(b.dist.rvs(size=W, random_state=S()), dtype=float)
                draws.append(lane_draws(e.lik(D, tp, c), W, S, ctx))
            out["rank of the next observation among draws of the model at belief draws"] = rank_u(x1, np.array(draws), phys)
            ctx.hit("two-step")
        ctx.hit("sbc-lanes")
        return out
    us, ranks, us1 = [], [], []
    for w in range(W):
        prior = getattr(D, cls)(**f)
        th = as_num(np.asarray(prior.dist.rvs(size=1, random_state=S())))
        x = np.asarray(e.lik(D, th, c).dist.rvs(size=T, random_state=S())).reshape(T, 1)
        masks, lost, reord = deliver(phys, T, 1, net)
        count(ctx, lost, reord, net)
        b = prior
        for m in masks:
            if not m.any() and phys.random_sample() < 0.5:
                continue
            b = e.upd(MScalar, m, x, c, b)
            if net["crash"]:
                b = pickle.loads(pickle.dumps(b))
        us.append(float(b.dist.cdf(th)))
    out["belief cdf of the truth"] = us
    ctx.hit("sbc-scalar")
    return out


class _MScalar:
    """The model functions, called with plain Python numbers."""

    def __getattr__(self, name):
        f = getattr(M_(), name)
        return lambda **kw: f(**{k: as_num(v) if isinstance(v, np.ndarray) else v for k, v in kw.items()})


MScalar = _MScalar()


def lane_draws(d, W, S, ctx):
    """One draw per lane, asked for without a size."""
    x = np.asarray(d.dist.rvs(random_state=S()), dtype=float)
    if x.shape != (W,):
        ctx.violate("draw-shape", f"{type(d).__name__}: one draw of each of {W} lanes has shape {x.shape}")
    return x


def predictive(out, e, p, x1, W, phys, S, ctx, bare=False):
    if bare and any(np.shape(v) == (W,) for v in vars(p).values() if isinstance(v, np.ndarray)):
        draws = np.array([lane_draws(p, W, S, ctx) for _ in range(19)])
    else:
        draws = np.asarray(p.dist.rvs(size=(19, W), random_state=S()), dtype=float)
    out["rank of the next observation among predictive draws"] = rank_u(x1, draws, phys)
    if e.pred_cdf:
        if e.disc:
            lo, hi = p.dist.cdf(x1 - 1), p.dist.cdf(x1)
            out["predictive cdf of the next observation"] = lo + phys.random_sample(W) * (hi - lo)
        else:
            out["predictive cdf of the next observation"] = p.dist.cdf(x1)


def count(ctx, lost, reord, net):
    if lost:
        ctx.fault("message-lost", lost)
    if reord:
        ctx.fault("message-reordered", reord)
    if net["crash"]:
        ctx.fault("crash-restore", net["batches"])


def exp_thompson(plan, W, phys, S, ctx):
    D, M = lib()
    e = EL[plan["fam"]]
    c, (cls, f), K, T, net = plan["consts"], plan["prior"], plan["K"], plan["T"], plan["net"]
    sign = plan["sign"]
    us, ranks = [], []
    for w in range(W):
        prior = getattr(D, cls)(**f)
        th = np.asarray(prior.dist.rvs(size=K, random_state=S()), dtype=float)
        b = prior
        queue = []
        for t in range(T):
            draw = np.asarray(b.dist.rvs(size=K, random_state=S()), dtype=float)
            arm = int(np.argmax(sign * draw))
            x = e.lik(D, float(th[arm]), c).dist.rvs(random_state=S())
            if phys.random_sample() < net["loss"]:
                ctx.fault("message-lost")
                continue
            queue.append((t + phys.exponential(net["delay"]), arm, x))
            due = [q for q in queue if q[0] <= t]
            queue = [q for q in queue if q[0] > t]
            b = absorb(e, M, b, due, K, c)
            if due and net["crash"]:
                b = pickle.loads(pickle.dumps(b))
        b = absorb(e, M, b, queue, K, c)
        us.extend(np.broadcast_to(b.dist.cdf(th), (K,)).tolist())
    ctx.hit("thompson")
    return {"belief cdf of the truth": us}


def absorb(e, M, b, due, K, c):
    if not due:
        return b
    x = np.ones((len(due), K))
    s = np.zeros((len(due), K), dtype=bool)
    for i, (_, a, v) in enumerate(due):
        x[i, a], s[i, a] = v, True
    return e.upd(M, s, x, c, b)


# ---------------------------------------------------------------- joint beliefs
def joint_law(plan, W, phys, S, ctx):
    """Draws of (mean, variance) of one belief against its documented joint law."""
    spec = plan["spec"]
    f = spec["fields"]
    name = spec["cls"]
    out = {}
    b = X.build(spec)
    meth = plan["method"]
    size = plan["chunk"]
    ms, vs = [], []
    while sum(len(m) for m in ms) < W:
        n = W if size is None else size
        if plan["rv"]:
            m, v = getattr(b, meth)(size=n, return_variance=True, random_state=S())
            vs.append(np.asarray(v))
        else:
            m = getattr(b, meth)(size=n, random_state=S())
        m = np.asarray(m, dtype=float)
        d = np.size(f["mu"])
        m = m.reshape(n, -1) if isinstance(f["mu"], list) else m.reshape(n)
        ms.append(m)
    m = np.concatenate(ms)[:W]
    mu = np.array(f["mu"], dtype=float)
    if name in ("NormalInverseGamma", "NormalGamma"):
        a, be = f["alpha"], f["beta"]
        k = f.get("nu") if name == "NormalInverseGamma" else f["lam"]
        V = np.array(f["delta_inverse"]) if f.get("delta_inverse") is not None else np.array([[1.0 / k]])
        m2 = m.reshape(W, -1)
        if plan["rv"]:
            v = np.concatenate([np.ravel(q) for q in vs])[:W]
            uv = sp.gammaincc(a, be / v)
            z = whiten(m2 - mu, V) / np.sqrt(v)[:, None]
            uz = sp.ndtr(z)
        else:
            uv = None
            # marginal law of the mean: t with 2 alpha degrees of freedom, scale beta / alpha * V
            uz = sp.stdtr(2 * a, (m2 - mu) / np.sqrt(np.diag(V) * be / a))
    else:
        P = np.array(f["W"]) if name == "NormalWishart" else np.array(f["psi"])
        k = f["lam"] if name == "NormalWishart" else f["kappa"]
        psi = np.linalg.inv(P) if name == "NormalWishart" else P
        nu, d = f["nu"], len(mu)
        m2 = m.reshape(W, d)
        if plan["rv"]:
            v = np.concatenate(vs)[:W].reshape(W, d, d)
            dirs = phys.standard_normal((W, d))
            q1 = np.einsum("wi,ij,wj->w", dirs, psi, dirs) / np.einsum("wi,wij,wj->w", dirs, v, dirs)
            uv = sp.gammainc((nu - d + 1) / 2, q1 / 2)
            L = np.linalg.cholesky(v / k)
            z = np.linalg.solve(L, (m2 - mu)[:, :, None])[:, :, 0]
            uz = sp.ndtr(z)
            vi = np.linalg.inv(v)
            q2 = np.einsum("wi,wij,wj->w", dirs, vi, dirs) / np.einsum("wi,ij,wj->w", dirs, np.linalg.inv(psi), dirs)
            out["inverse variance along a random direction"] = sp.gammainc(nu / 2, q2 / 2)
        else:
            uv = None
            sc = np.diag(psi) / (k * (nu - d + 1))
            uz = sp.stdtr(nu - d + 1, (m2 - mu) / np.sqrt(sc))
    for j in range(uz.shape[1]):
        out[f"mean, coordinate {j}"] = uz[:, j]
    pairs(out, "successive means", uz[:, 0])
    if uv is not None:
        out["variance"] = uv
        pairs(out, "successive variances", uv)
        out["mean and variance are independent after scaling"] = (uv + uz[:, 0]) % 1
        out["mean and variance are independent after scaling (2)"] = (uv - uz[:, 0]) % 1
        out["size of the scaled mean and variance are independent"] = (uv + 2 * np.abs(uz[:, 0] - 0.5)) % 1
    if uz.shape[1] > 1 and plan["rv"]:
        out["coordinates of the mean"] = (uz[:, 0] + uz[:, 1]) % 1
        out["coordinates of the mean (2)"] = (uz[:, 0] - uz[:, 1]) % 1
    ctx.hit("joint-law")
    return out


def pairs(out, name, u):
    n = len(u) // 2 * 2
    out[name] = (u[0:n:2] - u[1:n:2]) % 1
    out[name + " (2)"] = (u[0:n:2] + u[1:n:2]) % 1


def whiten(r, V):
    L = np.linalg.cholesky(V)
    return np.linalg.solve(L, r.T).T


def joint_sbc(plan, W, phys, S, ctx):
    """Unknown mean and variance: truth from the belief's joint sampler, data from Normal / LogNormal."""
    D, M = lib()
    spec, T, net = plan["spec"], plan["T"], plan["net"]
    L = 15
    prior = X.build(spec)
    mu, v = prior.sample_mean(size=W, return_variance=True, random_state=S())
    mu, v = np.ravel(mu), np.ravel(v)
    logn = plan["model"] == "log_normal"
    lik = D.LogNormal(mu=mu, sigma=v ** 0.5) if logn else D.Normal(mu=mu, sigma=v ** 0.5)
    x = np.asarray(lik.dist.rvs(size=(T, W), random_state=S()))
    if logn:
        x = np.log(x)
    masks, lost, reord = deliver(phys, T, W, net)
    count(ctx, lost, reord, net)
    sel_all = np.zeros((T, W), dtype=bool)
    Q = {k: np.zeros(W) for k in ("mu", "variance", "ratio", "log likelihood")}
    th_ll = loglik(x, np.logical_or.reduce(masks), mu, v)
    ranks = {k: [] for k in Q}
    for w in range(W):
        b = prior
        for m in masks:
            s = m[:, w]
            kw = dict(x_total=float(x[s, w].sum()), x2_total=float((x[s, w] ** 2).sum()), n=int(s.sum()), prior=b)
            if logn:
                b = M.log_normal(ln_x_total=kw["x_total"], ln_x2_total=kw["x2_total"], n=kw["n"], prior=b)
            else:
                b = M.normal(**kw)
            if net["crash"]:
                b = pickle.loads(pickle.dumps(b))
        dm, dv = b.sample_mean(size=L, return_variance=True, random_state=S())
        s = np.logical_or.reduce(masks)[:, w]
        ll = loglik(x[:, w:w + 1], s[:, None], np.ravel(dm), np.ravel(dv))
        for k, t, dr in (("mu", mu[w], dm), ("variance", v[w], dv), ("ratio", mu[w] / v[w] ** 0.5, dm / dv ** 0.5),
                         ("log likelihood", th_ll[w], ll)):
            ranks[k].append(rank_u(np.array([t]), np.ravel(dr)[:, None], phys)[0])
        if w == 0 or plan["pit"]:
            p = M.normal_predictive(distribution=b)
            x1 = mu[w] + v[w] ** 0.5 * phys.standard_normal()
            ranks.setdefault("predictive cdf of the next observation", []).append(float(p.dist.cdf(x1)))
    if not plan["pit"]:
        ranks.pop("predictive cdf of the next observation")
    ctx.hit("joint-sbc")
    return ranks


def loglik(x, sel, mu, v):
    return np.where(sel, -0.5 * np.log(v) - (x - mu) ** 2 / (2 * v), 0).sum(0)


def matrix_sbc(plan, W, phys, S, ctx):
    """Vectors of observations: truth from the prior's sampler, data from MultivariateNormal."""
    D, M = lib()
    which, f, T, net, c = plan["which"], plan["prior"], plan["T"], plan["net"], plan["consts"]
    arr = {k: np.array(v) if isinstance(v, list) else v for k, v in f.items()}
    L = 11
    out = {}

    def put(k, v):
        out.setdefault(k, []).append(float(v))

    for w in range(W):
        masks, lost, reord = deliver(phys, T, 1, net)
        count(ctx, lost, reord, net)
        if which == "mvn":
            prior = D.NormalInverseWishart(**arr)
            mu, cov = prior.sample_mean(size=1, return_variance=True, random_state=S())
            mu, cov = np.reshape(mu, -1), np.reshape(cov, (len(arr["mu"]),) * 2)
            x = np.reshape(D.MultivariateNormal(mu, cov).dist.rvs(size=T, random_state=S()), (T, len(mu)))
            b = prior
            for m in masks:
                if m.any() or phys.random_sample() < 0.3:
                    b = M.multivariate_normal(X=x[m[:, 0]], prior=b)
            dm, dc = b.sample_mean(size=L, return_variance=True, random_state=S())
            dm, dc = np.reshape(dm, (L, -1)), np.reshape(dc, (L, len(mu), len(mu)))
            dirn = phys.standard_normal(len(mu))
            g = lambda a, s: [a[0], s[0, 0], a @ dirn / math.sqrt(dirn @ s @ dirn), np.linalg.slogdet(s)[1], s[0, -1]]
            truth = g(mu, cov)
            draws = np.array([g(dm[i], dc[i]) for i in range(L)])
            for j, k in enumerate(("mean", "variance", "ratio along a direction", "log determinant", "covariance")):
                put(k, rank_u(np.array([truth[j]]), draws[:, j:j + 1], phys)[0])
            p = M.multivariate_normal_predictive(distribution=b)
            x1 = np.reshape(D.MultivariateNormal(mu, cov).dist.rvs(size=1, random_state=S()), -1)
            j = phys.randint(len(mu))
            put("predictive cdf of a component", p[int(j)].dist.cdf(x1[j]))
        elif which == "mvn_known_mean":
            prior = D.InverseWishart(**arr)
            d = len(c["mu"])
            cov = np.reshape(prior.dist.rvs(size=1, random_state=S()), (d, d))
            x = np.reshape(D.MultivariateNormal(np.array(c["mu"]), cov).dist.rvs(size=T, random_state=S()), (T, d))
            b = prior
            for m in masks:
                if m.any() or phys.random_sample() < 0.3:
                    b = M.multivariate_normal_known_mean(X=x[m[:, 0]], mu=np.array(c["mu"]), prior=b)
            dc = np.reshape(b.dist.rvs(size=L, random_state=S()), (L, d, d))
            for k, g in (("variance", lambda s: s[0, 0]), ("covariance", lambda s: s[0, -1]), ("log determinant", lambda s: np.linalg.slogdet(s)[1])):
                put(k, rank_u(np.array([g(cov)]), np.array([[g(s)] for s in dc]), phys)[0])
        elif which in ("mvn_known_cov", "mvn_known_prec"):
            prior = D.MultivariateNormal(**arr)
            d = len(arr["mu"])
            th = np.reshape(prior.dist.rvs(size=1, random_state=S()), -1)
            cov = np.array(c["cov"])
            x = np.reshape(D.MultivariateNormal(th, cov).dist.rvs(size=T, random_state=S()), (T, d))
            b = prior
            for m in masks:
                s = m[:, 0]
                kw = dict(n=int(s.sum()), x_bar=x[s].mean(0) if s.any() else np.zeros(d), prior=b)
                if which == "mvn_known_cov":
                    b = M.multivariate_normal_known_covariance(cov=cov, **kw)
                else:
                    b = M.multivariate_normal_known_precision(precision=np.linalg.inv(cov), **kw)
            j = int(phys.randint(d))
            put("belief cdf of a component of the truth", b[j].dist.cdf(th[j]))
            r = th - b.mu
            put("distance of the truth", sp.gammainc(d / 2, r @ np.linalg.solve(np.atleast_2d(b.cov), r) / 2))
            if which == "mvn_known_cov":
                p = M.multivariate_normal_known_covariance_predictive(distribution=b, cov=cov)
            else:
                p = M.multivariate_normal_known_precision_predictive(distribution=b, precision=np.linalg.inv(cov))
            x1 = np.reshape(D.MultivariateNormal(th, cov).dist.rvs(size=1, random_state=S()), -1)
            put("predictive cdf of a component", p[j].dist.cdf(x1[j]))
        else:   # linear regression
            prior = D.NormalInverseGamma(**arr)
            d = len(arr["mu"])
            be, v = prior.sample_beta(size=1, return_variance=True, random_state=S())
            be, v = np.reshape(be, -1), float(np.ravel(v)[0])
            Xm = phys.standard_normal((T, d))
            y = np.asarray(D.Normal(Xm @ be, v ** 0.5).dist.rvs(size=T, random_state=S()))
            b = prior
            for m in masks:
                s = m[:, 0]
                if s.any() or phys.random_sample() < 0.3:
                    b = M.linear_regression(X=Xm[s], y=y[s], prior=b)
            db, dv = b.sample_beta(size=L, return_variance=True, random_state=S())
            db, dv = np.reshape(db, (L, d)), np.ravel(dv)
            a = phys.standard_normal(d)
            put("variance", rank_u(np.array([v]), dv[:, None], phys)[0])
            put("coefficient along a direction", rank_u(np.array([a @ be]), (db @ a)[:, None], phys)[0])
            put("ratio", rank_u(np.array([be[0] / v ** 0.5]), (db[:, 0] / dv ** 0.5)[:, None], phys)[0])
            X1 = phys.standard_normal((2, d))
            p = M.linear_regression_predictive(distribution=b, X=X1)
            y1 = X1 @ be + v ** 0.5 * phys.standard_normal(2)
            put("predictive cdf of a component", p[1].dist.cdf(y1[1]))
    ctx.hit("matrix-sbc")
    return out


def dirichlet(plan, W, phys, S, ctx):
    D, M = lib()
    al, T, net = np.array(plan["alpha"], dtype=float), plan["T"], plan["net"]
    d = len(al)
    out = {}
    if plan["mode"] == "sbc":
        L = 15
        prior = D.Dirichlet(alpha=al)
        th = np.reshape(prior.dist.rvs(size=W, random_state=S()), (W, d))
        for w in range(W):
            p = th[w] / th[w].sum()
            n = 1 if plan["categorical"] else 4
            x = np.reshape(D.Multinomial(n=n, p=p).dist.rvs(size=T, random_state=S()), (T, d))
            masks, lost, reord = deliver(phys, T, 1, net)
            count(ctx, lost, reord, net)
            b = prior
            for m in masks:
                xx = x[m[:, 0]].sum(0)
                b = (M.categorical_dirichlet if plan["categorical"] else M.multinomial_dirichlet)(x=xx, prior=b)
            dr = np.reshape(b.dist.rvs(size=L, random_state=S()), (L, d))
            j = phys.randint(d)
            out.setdefault("component", []).append(rank_u(p[j:j + 1], dr[:, j:j + 1], phys)[0])
            tot = x[np.logical_or.reduce(masks)[:, 0]].sum(0)
            f = lambda q: float(sp.xlogy(tot, q).sum())
            out.setdefault("log likelihood", []).append(rank_u(np.array([f(p)]), np.array([[f(q)] for q in dr]), phys)[0])
    else:
        # several beliefs at once
        K = plan["rows"]
        rows = np.stack([al * (1 + 0.5 * k * plan["spread"]) for k in range(K)])
        dr = np.asarray(D.Dirichlet(alpha=rows).dist.rvs(size=W, random_state=S()))
        dr = dr.reshape(K, W, d)
        j = plan["j"] % d
        u = np.stack([sp.betainc(rows[k, j], rows[k].sum() - rows[k, j], dr[k, :, j]) for k in range(K)])
        for k in range(K):
            out[f"row {k}"] = u[k]
            pairs(out, f"row {k}, successive", u[k])
            if k:
                out[f"rows 0 and {k}"] = (u[k] - u[0]) % 1
                out[f"rows 0 and {k} (2)"] = (u[k] + u[0]) % 1
    ctx.hit("dirichlet")
    return out


def law(plan, W, phys, S, ctx):
    """Draws of an elementwise distribution against its documented law."""
    spec = plan["spec"]
    shape = tuple(spec["shape"])
    d = X.build(spec).dist
    xs = []
    if plan["one"]:
        W = W // 4
        for _ in range(W):
            x = d.rvs(random_state=S()) if plan.get("bare") else d.rvs(size=shape or 1, random_state=S())
            if np.size(x) != np.prod(shape or (1,)):
                ctx.violate("draw-shape", f"{spec['cls']}: one draw of lanes of shape {shape} has shape {np.shape(x)}")
            xs.append(np.reshape(x, (1,) + shape))
        x = np.concatenate(xs)
    else:
        x = np.asarray(d.rvs(size=(W,) + shape, random_state=S())).reshape((W,) + shape)
    x = x.reshape(W, -1).astype(float)
    out = {}
    K = x.shape[1]
    us = []
    for i in range(K):
        f = X.lane_fields(spec, i) if shape else spec["fields"]
        us.append(ref_u(spec["cls"], f, x[:, i], phys))
    for i in range(K):
        out[f"lane {i}"] = us[i]
        pairs(out, f"lane {i}, successive", us[i])
        if i:
            out[f"lanes 0 and {i}"] = (us[0] - us[i]) % 1
            out[f"lanes 0 and {i} (2)"] = (us[0] + us[i]) % 1
    ctx.hit("law")
    return out


def ref_u(cls, f, x, phys):
    """Uniform quantiles of draws x: the distribution function, randomised over the jump of a discrete one."""
    if cls == "CompoundGamma":
        z = f["lam"] / (x + f["lam"])
        return np.where(z < 0.5, 1 - sp.betainc(f["beta"], f["alpha"], z), sp.betainc(f["alpha"], f["beta"], x / (x + f["lam"])))
    if cls in R.DISCRETE:
        if np.any(x != np.round(x)) or np.any(x < 0):
            return np.full(len(x), np.nan)
        v = phys.random_sample(len(x))
        if cls == "BetaGeometric":       # P(K >= k) = B(alpha, beta + k) / B(alpha, beta)
            k = x - 1 if f["one_start"] else x
            a, b = f["alpha"], f["beta"]
            s0, s1 = (np.exp(sp.gammaln(b + q) + sp.gammaln(a + b) - sp.gammaln(a + b + q) - sp.gammaln(b)) for q in (k, k + 1))
            return np.where(k < 0, np.nan, 1 - s0 + v * (s0 - s1))
        top = int(min(x.max(), 60000))
        ks = np.arange(0, top + 1)
        with np.errstate(all="ignore"):
            pmf = np.exp(R.ref_log(cls, f, ks.astype(float)))
        full = np.concatenate([[0.0], np.cumsum(pmf), [1.0]])
        xi = np.clip(x, 0, top + 1).astype(int)
        lo, hi = full[xi], full[xi + 1]
        return np.where(hi - lo <= 0, np.nan, lo + v * (hi - lo))
    u = R.ref_cdf(cls, f, x)
    return u % 1 if cls == "VonMises" else u


def wide(rng, lo, hi):
    return float(f"{math.exp(rng.uniform(math.log(lo), math.log(hi))):.5g}")


# class -> field -> a wide range of usual values (the samplers of numpy are accurate there)
WIDE = {
    "Beta": {"alpha": (0.4, 200), "beta": (0.4, 200)}, "Binomial": {"n": (1, 2000), "p": "p"}, "Exponential": {"lam": (1e-3, 1e3)},
    "Gamma": {"alpha": (0.3, 500), "beta": (1e-2, 200)}, "NegativeBinomial": {"n": (0.3, 80), "p": "p"},
    "Hypergeometric": {"N": (400, 1500), "k": (1, 390), "n": (1, 390)}, "Poisson": {"lam": (0.01, 500)},
    "BetaBinomial": {"n": (1, 300), "alpha": (0.4, 80), "beta": (0.4, 80)},
    "BetaNegativeBinomial": {"n": (1, 40), "alpha": (1.2, 60), "beta": (0.4, 60)}, "Geometric": {"p": "p"},
    "BetaGeometric": {"alpha": (0.6, 80), "beta": (0.4, 800)}, "Normal": {"mu": "loc", "sigma": (1e-2, 100)},
    "Uniform": {"low": "loc", "high": "above"}, "Pareto": {"x_m": (1e-2, 200), "alpha": (0.3, 60)},
    "InverseGamma": {"alpha": (0.4, 200), "beta": (1e-2, 200)}, "StudentT": {"mu": "loc", "sigma": (1e-2, 100), "nu": (1, 200)},
    "Lomax": {"alpha": (0.4, 60), "lam": (1e-2, 200)}, "CompoundGamma": {"alpha": (0.4, 80), "beta": (0.4, 80), "lam": (1e-2, 200)},
    "VonMises": {"mu": "angle", "kappa": (0.05, 90)}, "ScaledInverseChiSquared": {"nu": (1, 200), "sigma2": (1e-2, 200)},
    "LogNormal": {"mu": "log", "sigma": (0.05, 4)}, "Weibull": {"beta": (0.3, 15), "theta": (1e-2, 200)},
}
WHOLE = {("Binomial", "n"), ("Hypergeometric", "N"), ("Hypergeometric", "k"), ("Hypergeometric", "n"), ("BetaBinomial", "n"), ("BetaNegativeBinomial", "n")}


def gen_wide(rng, cls, shape):
    spec = X.gen_elem(rng, cls, shape)

    def one(f, w):
        if w == "p":
            q = wide(rng, 2e-3, 0.5)
            return q if rng.random() < 0.5 else round(1 - q, 6)
        if w == "loc":
            return round(rng.uniform(-1, 1) * 10 ** rng.uniform(-1, 3), 4)
        if w == "above":
            return 1000 + wide(rng, 1e-2, 1e3)
        if w == "angle":
            return round(rng.uniform(-3.1, 3.1), 4)
        if w == "log":
            return round(rng.uniform(-8, 8), 4)
        v = wide(rng, *w)
        return max(1, round(v)) if (cls, f) in WHOLE else v

    for f, w in WIDE[cls].items():
        old = spec["fields"][f]
        spec["fields"][f] = (np.array([one(f, w) for _ in range(np.size(old))]).reshape(np.shape(old)).tolist() if isinstance(old, list)
                             else one(f, w))
    return spec


def component(plan, W, phys, S, ctx):
    """Draws of a vector against the law of its indexed components."""
    D, M = lib()
    spec = plan["spec"]
    v = X.build(spec)
    d = spec["d"]
    x = np.asarray(v.dist.rvs(size=W, random_state=S())).reshape(W, d)
    out = {}
    for j in range(d):
        out[f"component {j}"] = v[j].dist.cdf(x[:, j])
    key = plan["key"]
    idx = list(range(d))[slice(*key[1:])] if key[0] == "slice" else key[1]
    sub = v[slice(*key[1:])] if key[0] == "slice" else v[list(key[1])]
    y = np.asarray(sub.dist.rvs(size=W, random_state=S())).reshape(W, len(idx))
    nu = spec["fields"].get("nu")
    mu = np.array(spec["fields"]["mu"])[idx]
    Sg = np.array(spec["fields"].get("cov") or spec["fields"]["sigma"])[np.ix_(idx, idx)]
    for name, z in (("selected components of the draws", x[:, idx]), ("draws of the selection", y)):
        r = z - mu
        q = np.einsum("wi,ij,wj->w", r, np.linalg.inv(Sg), r)
        k = len(idx)
        out[name] = sp.gammainc(k / 2, q / 2) if nu is None else sp.fdtr(k, nu, q / k)
    r = x[:, idx] - np.atleast_1d(np.asarray(sub.mu, dtype=float))
    cs = np.asarray(getattr(sub, "cov", None) if nu is None else sub.sigma, dtype=float).reshape(len(idx), len(idx))
    q = np.einsum("wi,ij,wj->w", r, np.linalg.inv(cs), r)
    out["selected draws under the selection's parameters"] = sp.gammainc(len(idx) / 2, q / 2) if nu is None else sp.fdtr(len(idx), nu, q / len(idx))
    pairs(out, "successive draws", np.asarray(v[0].dist.cdf(x[:, 0])))
    ctx.hit("component")
    return out


# ---------------------------------------------------------------- plans
KINDS = ["lanes", "lanes", "lanes", "scalar", "thompson", "joint-law", "joint-law", "joint-sbc", "matrix", "dirichlet", "law", "law", "law", "law", "component"]
WORLDS = {"lanes": 1500, "scalar": 120, "thompson": 50, "joint-law": 1200, "joint-sbc": 100, "matrix": 90, "dirichlet": 120, "law": 1500,
          "component": 1500}
RUN_LIMIT_S = 300


def gen_net(rng):
    return {"loss": rng.choice([0, 0.1, 0.4]), "delay": rng.choice([0.01, 1.0, 3.0]), "batches": rng.choice([1, 2, 4]),
            "crash": rng.random() < 0.3}


def widen(rng, plan):
    """The same worlds further out: sharper or vaguer priors, larger constants, more messages."""
    cls, f = plan["prior"]
    g = {k: v for k, v in f.items()}
    for k in g:
        up = 10 ** rng.uniform(0, 1.3)
        if k in ("alpha", "nu") or plan["fam"] not in ("pareto_gamma",):
            g[k] = float(f"{g[k] * up:.5g}")
    if cls == "Beta" and rng.random() < 0.5 and plan["fam"] in ("binomial_beta", "bernoulli_beta"):
        g = {k: float(f"{v / 10 ** rng.uniform(0, 0.4):.5g}") for k, v in f.items()}
    c = dict(plan["consts"])
    if "m" in c:
        c["m"] = rng.choice([30, 60])
    if "mu" in c:
        c["mu"] = round(c["mu"] * 10 ** rng.uniform(0, 1), 3)
    for k in ("var", "precision", "x_m"):
        if k in c:
            c[k] = float(f"{c[k] * 10 ** rng.uniform(-1.3, 1.3):.5g}")
    plan.update(prior=[cls, g], consts=c, T=rng.choice([1, 6, 25, 60]))


def gen(rng, i, tier):
    kind = KINDS[i % len(KINDS)]
    plan = {"kind": kind, "seed": rng.randrange(2 ** 31), "form": rng.choice(["int", "RandomState", "Generator", "None"]),
            "net": gen_net(rng), "T": rng.choice([0, 1, 3, 6, 6])}
    j = i // len(KINDS)
    if kind in ("lanes", "scalar", "thompson"):
        names = sorted(EL)
        fam = names[(j * 3 + KINDS[:i % len(KINDS)].count(kind)) % len(names)] if kind == "lanes" else names[j % len(names)]
        cls, f = EL[fam].prior(rng)
        plan.update(fam=fam, prior=[cls, f], consts=EL[fam].consts(rng))
        if kind == "lanes" and rng.random() < 0.35:
            widen(rng, plan)
        if kind == "thompson":
            plan.update(K=rng.choice([2, 3]), T=rng.choice([3, 6, 10]), sign=rng.choice([1, -1]))
        if kind == "scalar":
            plan["T"] = max(1, plan["T"])
        if plan["T"] == 0:
            plan["T"] = 1
            plan["net"]["loss"] = 1.0
    elif kind == "joint-law":
        name = ["NormalInverseGamma", "NormalInverseGammaNd", "NormalGamma", "NormalWishart", "NormalInverseWishart"][j % 5]
        spec = X.gen_vector(rng, name, 1 if rng.random() < 0.2 else None)
        meth = rng.choice(["sample_mean", "sample_beta"]) if "Wishart" not in name else "sample_mean"
        plan.update(spec=spec, method=meth, rv=rng.random() < 0.75, chunk=rng.choice([None, None, 1, 3, 7]))
    elif kind == "joint-sbc":
        name = rng.choice(["NormalInverseGamma", "NormalGamma"])
        spec = X.gen_vector(rng, name)
        plan.update(spec=spec, model=rng.choice(["normal", "normal", "log_normal"]), pit=True)
        plan["T"] = max(1, plan["T"])
    elif kind == "matrix":
        which = ["mvn", "mvn_known_mean", "mvn_known_cov", "mvn_known_prec", "linear_regression"][j % 5]
        d = rng.choice([1, 2, 2, 3])
        mu = [loc(rng, 3) for _ in range(d)]
        if which == "mvn":
            prior = {"mu": mu, "kappa": pos(rng, 0.4, 5), "nu": d + pos(rng, 1.5, 6), "psi": spd(rng, d)}
            c = {}
        elif which == "mvn_known_mean":
            prior, c = {"nu": d + pos(rng, 1.5, 6), "psi": spd(rng, d)}, {"mu": mu}
        elif which == "linear_regression":
            prior, c = {"mu": mu, "delta_inverse": spd(rng, d), "alpha": pos(rng, 1.5, 6), "beta": pos(rng, 0.5, 6)}, {}
        else:
            prior, c = {"mu": mu, "cov": spd(rng, d)}, {"cov": spd(rng, d)}
        plan.update(which=which, prior=prior, consts=c)
        plan["T"] = max(1, plan["T"])
    elif kind == "dirichlet":
        d = rng.randint(2, 4)
        plan.update(alpha=[pos(rng, 0.8, 7) for _ in range(d)], mode=rng.choice(["sbc", "rows"]), rows=rng.choice([2, 3]),
                    spread=rng.choice([0, 1]), j=rng.randrange(d), categorical=rng.random() < 0.5)
        plan["T"] = max(1, plan["T"])
    elif kind == "law":
        names = sorted(set(X.ELEM) - X.USER)
        n = 4 * j + KINDS[:i % len(KINDS)].count("law")
        cls = names[n % len(names)]
        shape = rng.choice([(), (), (2,), (3,)])
        plan.update(spec=(gen_wide if n // len(names) % 2 else X.gen_elem)(rng, cls, shape), one=rng.random() < 0.25)
    else:
        spec = X.gen_vector(rng, rng.choice(["MultivariateNormal", "MultivariateStudentT"]))
        d = spec["d"]
        plan.update(spec=spec, key=rng.choice([["slice", 0, 2, None], ["slice", None, None, 2], ["list", [d - 1, 0]], ["slice", None, None, -1],
                                               ["list", [0]], ["slice", 1, None, None]]))
    if kind in ("lanes", "law"):
        plan["bare"] = rng.random() < 0.5
    return plan


FUN = {"joint-law": joint_law, "joint-sbc": joint_sbc, "matrix": matrix_sbc, "dirichlet": dirichlet, "law": law, "component": component,
       "thompson": exp_thompson, "lanes": lambda *a: exp_el(*a, False), "scalar": lambda *a: exp_el(*a, True)}


def population(plan, W, salt, ctx):
    seed = (plan["seed"] + 7919 * salt) % 2 ** 31
    phys = np.random.RandomState(seed ^ 0x1234567)
    S = Streams(plan["form"], seed)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return FUN[plan["kind"]](plan, W, phys, S, ctx)


def describe(plan):
    bits = [plan["kind"], plan.get("fam"), plan.get("which"), (plan.get("spec") or {}).get("cls"), plan.get("method"), plan.get("model"),
            f"random_state={plan['form']}"]
    return " ".join(str(b) for b in bits if b)


def execute(plan, ctx):
    W = plan.get("W") or WORLDS[plan["kind"]]
    st = population(plan, W, 0, ctx)
    suspects = []
    for k in sorted(st):
        u = np.asarray(st[k], dtype=float)
        ctx.log(k, np.round(u, 9).tobytes().hex()[:64], len(u))
        if pvalue(u) < P1:
            suspects.append(k)
    ctx.hit("worlds", W)
    ctx.hit("statistics", len(st))
    if suspects:
        ctx.hit("confirmations")
        again = population(plan, 6 * W, 1, ctx)
        for k in suspects:
            u = np.asarray(again[k], dtype=float)
            p = pvalue(u)
            if p < P2:
                bad = int((~np.isfinite(u)).sum())
                ctx.violate("uncalibrated", f"{describe(plan)}: '{k}' is not uniform over {len(u)} worlds (p = {p:.1e}"
                            + (f", {bad} not a number" if bad else f", mean {u.mean():.4f}") + ")")
    ctx.nontrivial = bool(st)


def shrink(plan):
    if "net" in plan:
        for k, v in (("loss", 0), ("delay", 0.01), ("batches", 1), ("crash", False)):
            if plan["net"][k] != v:
                yield dict(plan, net=dict(plan["net"], **{k: v}))
    if plan.get("T", 0) > 1:
        yield dict(plan, T=1)
    if plan["form"] != "RandomState":
        yield dict(plan, form="RandomState")


def known_plan(kid):
    raise KeyError(kid)
