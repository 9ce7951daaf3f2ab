"""C02: forecasters on an unreliable network announce a predictive before each observation they absorb.

Each forecaster's running log score must equal the exact log marginal likelihood of what it absorbed, hence agree with
every other forecaster whatever order the network gave it; n-step announcements must be the law of the total.
"""
import heapq
import math
import pickle
import warnings

import numpy as np

from .. import core
from .. import families as F
from .. import refdist as R

ID = "C02"
RUNS = {"quick": 14000, "thorough": 160000}
CHUNK = 50
BUDGET_S = {"quick": 240, "thorough": 2400}
RULE = ("a run in which at least two forecasters absorbed the same observations (at least two of them) and all their "
        "scores were compared with the exact marginal likelihood; distinct by hash of the event log")
REAL = ["conjugate.models *_predictive and posterior functions", "conjugate.distributions dist properties",
        "conjugate._beta_geometric, conjugate._compound_gamma", "scipy.stats densities"]
STUB = ["network", "disk", "clock", "processes (forecasters)"]
ASSUMPTIONS = ["log densities are compared to 1e-7 (scaled by their size); where a family offers only the density, values "
               "below exp(-600) are not compared"]
PROBES = ["forecast", "aggregate-forecast", "joint-forecast", "restore", "different-orders", "lanes", "bulk", "impossible", "limits"]
# families with a predictive
FAMS = ["binomial_beta", "bernoulli_beta", "negative_binomial_beta", "geometric_beta", "geometric_beta_zero",
        "categorical_dirichlet", "multinomial_dirichlet", "poisson_gamma", "exponential_gamma", "gamma_known_shape", "poisson_exposure",
        "normal_known_variance", "normal_known_precision", "normal_known_mean_ig", "normal_known_mean_chi2", "normal_nig",
        "normal_ng", "normal_deprecated", "log_normal_nig", "log_normal_ng", "linear_regression",
        "multivariate_normal_known_covariance", "multivariate_normal_known_precision", "multivariate_normal"]
CHEAP = ["binomial_beta", "negative_binomial_beta", "geometric_beta", "geometric_beta_zero", "poisson_gamma", "poisson_exposure", "exponential_gamma",
         "gamma_known_shape", "normal_known_mean_ig", "normal_known_mean_chi2"]
VECTOR = {"categorical_dirichlet", "multinomial_dirichlet", "linear_regression", "multivariate_normal_known_covariance",
          "multivariate_normal_known_precision", "multivariate_normal"}


def gen(rng, i, tier):
    fam = F.BY_NAME[FAMS[i % len(FAMS)]]
    shape = ()
    if fam.lanes and fam.name not in VECTOR and rng.random() < 0.35:
        shape = rng.choice([(2,), (3,), (2, 2), (1,), (2, 3)])
        if rng.random() < 0.04:
            shape = rng.choice([(20,), (70,), (4, 5)])
    rng.wide = 0.3 if rng.random() < 0.2 else 0
    cfg = fam.gen_cfg(rng, shape)
    rng.wide = 0
    diffuse = fam.name in DIFFUSE and rng.random() < 0.1
    if diffuse:
        # a belief that knows next to nothing: its rate is many orders below one observation's
        f = cfg["prior"][DIFFUSE[fam.name]]
        tiny = [10 ** rng.uniform(-10, -5) for _ in range(np.size(f))]
        cfg["prior"][DIFFUSE[fam.name]] = np.reshape(tiny, np.shape(f)).tolist() if isinstance(f, list) else tiny[0]
    K = fam.nlanes(cfg)
    kinds = [k for k in fam.kinds(cfg["shape"]) if k not in ("frac", "series", "labelled")]
    kind = rng.choice(kinds)
    big = rng.random() < 0.04
    n = rng.randint(1, 8) if not big else rng.randint(40, 150)
    if fam.name in VECTOR and big:
        n = rng.randint(20, 40)
    obs = []
    for _ in range(n):
        ln = rng.randrange(K)
        o = fam.gen_obs(rng, fam.lane(cfg, "consts", ln))
        if fam.name.endswith("dirichlet") and sum(o) == 0:
            o[rng.randrange(len(o))] = 1      # the scipy family starts at one trial
        obs.append([ln, o])
    bulk = 0
    if not fam.single and rng.random() < 0.12:
        # a first batch is absorbed before the forecasts start
        bulk = rng.choice([1, 2, 5, 30, 120] + ([700] if fam.name in CHEAP else []))
        if fam.name in VECTOR:
            bulk = min(bulk, 30)
        extra = []
        for _ in range(bulk):
            ln = rng.randrange(K)
            extra.append([ln, fam.gen_obs(rng, fam.lane(cfg, "consts", ln))])
        obs = extra + obs
    nf = rng.randint(2, 3)
    fs = []
    for _ in range(nf):
        arr = []
        for m in range(n):
            t = round(rng.expovariate(0.3), 3) if rng.random() < 0.7 else float(m)
            arr.append([bulk + m, t])
            if rng.random() < 0.15:
                arr.append([bulk + m, round(t + rng.expovariate(0.2), 3)])
        fs.append({"arr": arr, "save": rng.choice([1, 2, 3]), "agg": rng.choice([0, 0, 2, 3]),
                   "joint": rng.random() < 0.3, "limits": 0 if diffuse and fam.name in DISC else rng.choice([0, 0, 0, 2, 3]),
                   "crash": sorted(round(rng.uniform(0, 12), 3) for _ in range(rng.choice([0, 0, 1, 2])))})
    agg_n = rng.choice([1, 2, 3, 7, 7, 40, 1000]) if fam.name not in VECTOR else rng.choice([1, 2, 3, 7])
    if fam.name in ("poisson_gamma", "poisson_exposure") and rng.random() < 0.5:
        agg_n = rng.choice([35 / 60, 0.25, 0.01, 7.5, 1.0, 2.0, 166.66])      # a window of any length
    return {"fam": fam.name, "cfg": cfg, "kind": kind, "obs": obs, "bulk": bulk, "fs": fs, "agg_n": agg_n}


def log_value(dist, discrete, x, lane, size):
    """log density of dist at x, in lane; nan-free or None when not representable. Returns list of candidate values."""
    name = "pmf" if discrete else "pdf"
    out = []
    if hasattr(dist, "log" + name):
        out.append(("log" + name, float(np.broadcast_to(np.asarray(getattr(dist, "log" + name)(x), dtype=float), size or ()).ravel()[lane]
                   if size else np.asarray(getattr(dist, "log" + name)(x), dtype=float).ravel()[0])))
    v = np.asarray(getattr(dist, name)(x), dtype=float)
    v = float(np.broadcast_to(v, size).ravel()[lane] if size else v.ravel()[0])
    out.append((name, math.log(v) if v > 0 else (-math.inf if v == 0 else math.nan)))
    return out


def execute(plan, ctx):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        _execute(plan, ctx)


DIFFUSE = {"poisson_gamma": "beta", "poisson_exposure": "beta", "exponential_gamma": "beta", "gamma_known_shape": "beta",
           "normal_nig": "nu", "normal_ng": "lam", "normal_known_mean_ig": "beta"}
STAT = None      # filled by a calibration run only
DISC = {"binomial_beta", "bernoulli_beta", "negative_binomial_beta", "geometric_beta", "geometric_beta_zero",
        "categorical_dirichlet", "multinomial_dirichlet", "poisson_gamma", "poisson_exposure"}


def _execute(plan, ctx):
    fam = F.BY_NAME[plan["fam"]]
    cfg, kind, obs = plan["cfg"], plan["kind"], plan["obs"]
    K = fam.nlanes(cfg)
    size = tuple(cfg["shape"])
    disc = plan["fam"] in DISC
    if plan["fam"] in ("categorical_dirichlet", "multinomial_dirichlet"):
        size = ()
    lanes_p = [(fam.lane(cfg, "prior", i), fam.lane(cfg, "consts", i)) for i in range(K)]
    if size:
        ctx.hit("lanes")

    def ml(ids):
        per = [[] for _ in range(K)]
        for m in ids:
            per[obs[m][0]].append(obs[m][1])
        return sum(fam.logml(p, c, o) for (p, c), o in zip(lanes_p, per))

    prior = fam.make_prior(cfg, kind)
    finals = []
    noises = 0.0
    orders = []
    for fi, f in enumerate(plan["fs"]):
        st = {"belief": prior, "ids": [], "score": 0.0}
        B = plan.get("bulk", 0)
        if B:
            ctx.hit("bulk")
            try:
                stats = fam.batch_stats(cfg, obs[:B])
                st["belief"] = fam.update(prior, cfg, fam.stat_values(cfg, stats, kind), kind)
            except Exception as e:
                ctx.violate("raised", f"{fam.name}: update with {B} observations: {type(e).__name__}: {e}")
            st["ids"] = list(range(B))
            st["score"] = ml(st["ids"])
        disk = pickle.dumps(st)
        heap = [(t, s, m) for s, (m, t) in enumerate(f["arr"])]
        heapq.heapify(heap)
        crash = list(f["crash"])
        seq = len(heap)
        since = 0
        tol_base, noise = 1e-7, 0.0
        while heap:
            t, _, m = heapq.heappop(heap)
            if crash and t > crash[0]:
                crash.pop(0)
                ctx.fault("crash")
                st = pickle.loads(disk)
                ctx.hit("restore")
                since = 0
                # everything not durable is sent again, later
                for j in range(len(obs)):
                    if j not in st["ids"]:
                        seq += 1
                        heapq.heappush(heap, (t + 1.0 + ((j * 7 + fi * 3) % 5), seq, j))
                continue
            if m in st["ids"]:
                ctx.fault("duplicate-delivery")
                continue
            ln, o = obs[m]
            before = ml(st["ids"])
            want = ml(st["ids"] + [m]) - before
            try:
                args = fam.pred_args(o) if hasattr(fam, "pred_args") else {}
                if plan["fam"] in ("categorical_dirichlet", "multinomial_dirichlet"):
                    n_o = sum(o)
                    if n_o != 1 or (fi % 2):
                        args = {"n": n_o}
                d = fam.pred(st["belief"], cfg, kind, **args).dist
                x = fam.pred_x(o) if hasattr(fam, "pred_x") else o
                xs = x
                vals = log_value(d, disc, xs, ln, size)
            except Exception as e:
                ctx.violate("raised", f"{fam.name}: predictive after {len(st['ids'])} observations: {type(e).__name__}: {e}")
            ctx.hit("forecast")
            slack = fam.noise(*lanes_p[ln], [obs[j][1] for j in st["ids"] if obs[j][0] == ln], x)
            noise += slack
            for nm, v in vals:
                if not nm.startswith("log") and want < -600:
                    continue
                tol = tol_base * (1 + abs(want) + 0.02 * abs(before)) + slack
                if STAT is not None:
                    STAT[fam.name] = max(STAT.get(fam.name, 0), abs(v - want) / tol)
                if not abs(v - want) <= tol:
                    ctx.violate("incoherent-predictive", f"{fam.name}: predictive ({nm}) gives log probability {v!r} to observation "
                                f"{o} after {len(st['ids'])} observations; the marginal likelihoods give {want!r}")
            # (a density below e^-600 keeps too few digits as a floating point number)
            st["score"] += want if not np.isfinite(vals[0][1]) or (want < -600 and not vals[0][0].startswith("log")) else vals[0][1]
            if f["agg"] and len(st["ids"]) % f["agg"] == 0:
                aggregate(plan, fam, cfg, kind, st, lanes_p, ctx, size, K)
            if f["joint"] and plan["fam"] not in VECTOR:
                impossible(plan, fam, cfg, d, args, st, ln, size, disc, ctx)
            if f.get("limits") and len(st["ids"]) % f["limits"] == 0 and plan["fam"] not in VECTOR:
                limits(plan, fam, cfg, kind, st, lanes_p, d, args, size, K, ctx)
            if f["joint"]:
                joint(plan, fam, cfg, st, ml, m, ctx)
            ctx.log("f", fi, m, f"{want:.9g}")
            try:
                if fam.single:
                    stats = fam.batch_stats(cfg, [[0, o]])
                else:
                    stats = fam.batch_stats(cfg, [[ln, o]])
                st["belief"] = fam.update(st["belief"], cfg, fam.stat_values(cfg, stats, kind), kind)
            except Exception as e:
                ctx.violate("raised", f"{fam.name}: update: {type(e).__name__}: {e}")
            st["ids"] = st["ids"] + [m]
            since += 1
            if since >= f["save"]:
                disk = pickle.dumps(st)
                since = 0
            ctx.sim_time += 0.0
        ctx.sim_time += t
        finals.append(st["score"])
        orders.append(tuple(st["ids"]))
        noises = max(noises, noise)
        total = ml(st["ids"])
        if not abs(st["score"] - total) <= 1e-6 * (1 + abs(total)) + noise:
            ctx.violate("wrong-marginal", f"{fam.name}: forecaster {fi} scored {st['score']!r} over {len(st['ids'])} observations, "
                        f"the exact log marginal likelihood is {total!r}")
        if len(st["ids"]) != len(obs):
            ctx.violate("harness-lost", f"forecaster {fi} absorbed {len(st['ids'])} of {len(obs)}")
    if max(finals) - min(finals) > 1e-6 * (1 + abs(finals[0])) + 2 * noises:
        ctx.violate("order-dependent", f"{fam.name}: scores {finals} for the same observations in different orders")
    if len(set(orders)) > 1:
        ctx.hit("different-orders")
    if len(obs) >= 2:
        ctx.nontrivial = True


def impossible(plan, fam, cfg, d, args, st, ln, size, disc, ctx):
    """Values the observation cannot take have no probability."""
    name = plan["fam"]
    bad = [-1.0, -7.0] if disc else [-0.3, -2.0, -500.0]
    if name == "geometric_beta":
        bad.append(0.0)
    elif name == "binomial_beta":
        bad += [args["n"] + 1.0, args["n"] + 30.0]
    elif name == "bernoulli_beta":
        bad += [2.0, 17.0]
    elif not disc and name not in ("exponential_gamma", "gamma_known_shape"):
        return
    for x in bad:
        for nm, v in log_value(d, disc, x, ln, size):
            if v != -math.inf:
                ctx.violate("incoherent-predictive", f"{fam.name}: predictive ({nm}) gives log probability {v!r} to the impossible "
                            f"observation {x} after {len(st['ids'])} observations")
    ctx.hit("impossible")


def posterior_params(fam, p, c, ids_obs):
    r = fam.ref(p, c, ids_obs)
    return {k: v[0] for k, v in r.items()}


def aggregate(plan, fam, cfg, kind, st, lanes_p, ctx, size, K):
    """The announcement about the total of the next n trials against its exact law."""
    n = plan["agg_n"]
    obs = plan["obs"]
    name = fam.name
    if name not in ("binomial_beta", "bernoulli_beta", "poisson_gamma", "poisson_exposure", "negative_binomial_beta",
                    "categorical_dirichlet", "multinomial_dirichlet"):
        return
    per = [[] for _ in range(K)]
    for m in st["ids"]:
        per[obs[m][0]].append(obs[m][1])
    if name in ("categorical_dirichlet", "multinomial_dirichlet"):
        if cfg["shape"]:
            return
        a = np.array(cfg["prior"]["alpha"], dtype=float) + np.sum([o for o in per[0]] or [[0.0] * cfg["d"]], axis=0)
        d = fam.pred(st["belief"], cfg, kind, n=n).dist
        tot = 0.0
        for x in compositions(n, cfg["d"]):
            want = R.dirichlet_multinomial_log(a, n, x)
            got = float(d.logpmf(np.array(x)))
            tot += math.exp(got)
            if not abs(got - want) <= 1e-7 * (1 + abs(want)):
                ctx.violate("aggregate-law", f"{name}: counts {x} of the next {n} trials: log probability {got!r}, exact {want!r}")
        if abs(tot - 1) > 1e-6:
            ctx.violate("aggregate-law", f"{name}: probabilities of the next {n} trials sum to {tot}")
        ctx.hit("aggregate-forecast")
        return
    ks = np.arange(0, n + 1) if name in ("binomial_beta", "bernoulli_beta") else np.array([0, 1, 2, 3, 7, 20, 55])
    if len(ks) > 12:
        ks = np.array([0, 1, 2, 3, n // 3, n // 2, n - 1, n])
    if name == "bernoulli_beta":
        from ..families import lib
        d = lib()[1].binomial_beta_predictive(n=n, distribution=st["belief"]).dist
    elif name == "negative_binomial_beta":
        d = None
    else:
        d = fam.pred(st["belief"], cfg, kind, n=n).dist
    for ln in range(K):
        p, c = lanes_p[ln]
        q = posterior_params(fam, p, c, per[ln])
        for k in ks:
            k = float(k)
            if name in ("binomial_beta", "bernoulli_beta"):
                want = float(R.BetaBinomial(np.array(k), n, q["alpha"], q["beta"]))
            elif name in ("poisson_gamma", "poisson_exposure"):
                # total of n Poissons with a shared Gamma rate
                a, b = q["alpha"], q["beta"]
                want = (math.lgamma(a + k) - math.lgamma(a) - math.lgamma(k + 1) + a * math.log(b / (b + n)) + k * math.log(n / (b + n)))
            else:
                # failures before n more rounds of r successes each
                from ..families import lib
                r = c["r"] * n
                if ln == 0 and k == 0:
                    rr = np.asarray(fam.consts(cfg, "float")["r"]) * n
                    d = lib()[1].negative_binomial_beta_predictive(r=rr, distribution=st["belief"]).dist
                want = float(R.BetaNegativeBinomial(np.array(k), r, q["alpha"], q["beta"]))
            got = np.asarray(d.logpmf(k), dtype=float)
            got = float(np.broadcast_to(got, size).ravel()[ln]) if size else float(got.ravel()[0])
            if not abs(got - want) <= 1e-7 * (1 + abs(want)):
                ctx.violate("aggregate-law", f"{name}: total {k} of the next {n} trials in lane {ln}: log probability {got!r}, exact {want!r}")
    ctx.hit("aggregate-forecast")


LIMIT_Q = [0.025, 0.25, 0.5, 0.9, 0.975]


def limits(plan, fam, cfg, kind, st, lanes_p, d, args, size, K, ctx):
    """Announced quantiles and tail probabilities of the next observation, against the exact posterior predictive."""
    name = fam.name
    law = LAWS.get(name)
    if law is None:
        return
    obs = plan["obs"]
    per = [[] for _ in range(K)]
    for m in st["ids"]:
        per[obs[m][0]].append(obs[m][1])
    disc = name in DISC
    for ln in range(K):
        p, c = lanes_p[ln]
        ref = fam.ref(p, c, per[ln])
        q = {k: v[0] for k, v in ref.items()}
        # totals of squares cancel: what is left of the precision of a parameter
        tol = 1e-7 + sum(20 * fam.nat_tol * 1e-3 * sc / (abs(v) + 1e-9) for v, sc in ref.values())
        if not all(math.isfinite(v) for v in q.values()) or tol > 1e-3:
            continue
        cls, fields, shift = law(q, c, args)
        for u in LIMIT_Q:
            if not disc and not (float(R.ref_cdf(cls, fields, np.array(1e9))) > u + tol and float(R.ref_cdf(cls, fields, np.array(-1e9))) < u - tol):
                continue        # tails too heavy for floating point numbers
            try:
                y = d.ppf(u)
                y = float(np.broadcast_to(np.asarray(y, dtype=float), size).ravel()[ln] if size else np.asarray(y, dtype=float).ravel()[0])
                if disc and not 0 <= y < 3000:
                    if y != y or y < 0:
                        ctx.violate("quantile", f"{name}: quantile {u} of the next observation is {y}")
                    continue
                at = d.cdf(y)
                at = float(np.broadcast_to(np.asarray(at, dtype=float), size).ravel()[ln] if size else np.asarray(at, dtype=float).ravel()[0])
            except Exception as e:
                ctx.violate("raised", f"{name}: quantile {u} of the predictive after {len(st['ids'])} observations: {type(e).__name__}: {e}")
            F = float(R.ref_cdf(cls, fields, np.array(y - shift)))
            eps = 8 * np.spacing(abs(y) + abs(shift))       # the quantile itself is a floating point number
            grain = 0.0 if disc else float(R.ref_cdf(cls, fields, np.array(y - shift + eps)) - R.ref_cdf(cls, fields, np.array(y - shift - eps)))
            if abs(at - F) > tol + grain:
                ctx.violate("quantile", f"{name}: predictive puts {at!r} at or below {y} in lane {ln} after {len(st['ids'])} observations; "
                            f"exact {F!r}")
            if disc:
                below = float(R.ref_cdf(cls, fields, np.array(y - 1 - shift))) if y >= 1 else 0.0
                if not (F >= u - tol and below <= u + tol):
                    ctx.violate("quantile", f"{name}: quantile {u} of the next observation announced as {y} in lane {ln}; exact "
                                f"probabilities are {below!r} below it and {F!r} up to it")
            elif abs(F - u) > tol + grain:
                ctx.violate("quantile", f"{name}: quantile {u} of the next observation announced as {y!r} in lane {ln} after "
                            f"{len(st['ids'])} observations; exactly {F!r} lies below it")
    ctx.hit("limits")


# exact law of the next observation, from the exact posterior parameters: class, parameters, shift
LAWS = {
    "binomial_beta": lambda q, c, a: ("BetaBinomial", {"n": a.get("n", 1), "alpha": q["alpha"], "beta": q["beta"]}, 0),
    "bernoulli_beta": lambda q, c, a: ("BetaBinomial", {"n": 1, "alpha": q["alpha"], "beta": q["beta"]}, 0),
    "poisson_gamma": lambda q, c, a: ("NegativeBinomial", {"n": q["alpha"], "p": q["beta"] / (q["beta"] + a.get("n", 1))}, 0),
    "poisson_exposure": lambda q, c, a: ("NegativeBinomial", {"n": q["alpha"], "p": q["beta"] / (q["beta"] + a.get("n", 1))}, 0),
    "exponential_gamma": lambda q, c, a: ("Lomax", {"alpha": q["alpha"], "lam": q["beta"]}, 0),
    "normal_known_variance": lambda q, c, a: ("Normal", {"mu": q["mu"], "sigma": math.hypot(q["sigma"], c["var"] ** 0.5)}, 0),
    "normal_known_precision": lambda q, c, a: ("Normal", {"mu": q["mu"], "sigma": math.hypot(q["sigma"], c["precision"] ** -0.5)}, 0),
    "normal_known_mean_ig": lambda q, c, a: _t(c["mu"], q["alpha"], q["beta"]),
    "normal_known_mean_chi2": lambda q, c, a: _t(c["mu"], q["nu"] / 2, q["nu"] * q["sigma2"] / 2),
    "normal_nig": lambda q, c, a: _t(q["mu"], q["alpha"], q["beta"] * (1 + 1 / q["nu"])),
    "normal_ng": lambda q, c, a: _t(q["mu"], q["alpha"], q["beta"] * (1 + 1 / q["lam"])),
    "normal_deprecated": lambda q, c, a: _t(q["mu"], q["alpha"], q["beta"] * (1 + 1 / q["nu"])),
    "log_normal_nig": lambda q, c, a: _t(q["mu"], q["alpha"], q["beta"] * (1 + 1 / q["nu"])),
    "log_normal_ng": lambda q, c, a: _t(q["mu"], q["alpha"], q["beta"] * (1 + 1 / q["lam"])),
}


def _t(mu, a, b):
    return "StudentT", {"mu": mu, "sigma": (b / a) ** 0.5, "nu": 2 * a}, 0



def compositions(n, d):
    if d == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for r in compositions(n - i, d - 1):
            yield (i,) + r


def joint(plan, fam, cfg, st, ml, m, ctx):
    """Joint announcement of the next few responses of a regression."""
    if fam.name != "linear_regression":
        return
    rest = [j for j in range(len(plan["obs"])) if j not in st["ids"]][:3]
    if len(rest) < 2:
        return
    d = fam.pred(st["belief"], cfg, X=[plan["obs"][j][1][0] for j in rest]).dist
    want = ml(st["ids"] + rest) - ml(st["ids"])
    got = float(d.logpdf([plan["obs"][j][1][1] for j in rest]))
    ctx.hit("joint-forecast")
    if not abs(got - want) <= 1e-6 * (1 + abs(want)):
        ctx.violate("incoherent-predictive", f"linear_regression: joint log density of the next {len(rest)} responses {got!r}, exact {want!r}")


def shrink(plan):
    if len(plan["fs"]) > 1:
        for c in core.list_drops(plan["fs"]):
            if c:
                yield dict(plan, fs=c)
    n = len(plan["obs"])
    for keep in core.list_drops(list(range(n))):
        if not keep:
            continue
        idx = {m: k for k, m in enumerate(keep)}
        if not any(m in idx for f in plan["fs"] for m, _ in f["arr"]):
            continue
        yield dict(plan, bulk=sum(1 for m in keep if m < plan.get("bulk", 0)), obs=[plan["obs"][m] for m in keep],
                   fs=[dict(f, arr=[[idx[m], t] for m, t in f["arr"] if m in idx]) for f in plan["fs"]])
    for k in range(len(plan["fs"])):
        for key, v in (("crash", []), ("agg", 0), ("joint", False), ("limits", 0), ("save", 1)):
            if plan["fs"][k].get(key, v) != v:
                fs = list(plan["fs"])
                fs[k] = dict(fs[k], **{key: v})
                yield dict(plan, fs=fs)
    if plan["kind"] != "float":
        yield dict(plan, kind="float")


def known_plan(kid):
    raise KeyError(kid)
