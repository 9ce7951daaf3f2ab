"""C07: one vectorised belief and K independent scalar beliefs follow the same history of lane deliveries; lanes fall silent,
receive corrupt values, and lanes are picked out by indexing and carried on.  Every lane must behave as its scalar twin."""
import copy
import warnings

import numpy as np

from .. import core
from .. import dists as X
from .. import families as F
from ..families import lib, pos, loc

ID = "C07"
RUNS = {"quick": 10000, "thorough": 120000}
CHUNK = 50
BUDGET_S = {"quick": 240, "thorough": 2400}
RULE = ("a history in which at least two lanes were compared with their scalar twins after at least one update, density or indexing "
        "operation; distinct by hash of the event log")
REAL = ["conjugate.models, conjugate.distributions, conjugate.slice"]
STUB = ["what reaches each lane, and which lanes are corrupt or silent"]
ASSUMPTIONS = ["indexing is checked for distributions whose parameters are scalars or arrays of the full lane shape (an array "
               "parameter that would have to be broadcast first is indexed as it is), and for indices that are valid for the lanes",
               "lanes are compared to 1e-9 relative (numpy's array and scalar paths may differ in the last bit)"]
PROBES = ["history", "corrupt-lane", "silent-lane", "indexed", "density", "predictive", "component", "2d", "loglik", "transform",
          "iterated", "no-such-lane", "key-pair", "key-int", "key-list", "key-mask", "key-slice", "key-npint", "key-intarray", "bernoulli", "dirichlet", "selected-none"]

LANE_FAMS = [f.name for f in F.ALL if f.lanes] + ["bernoulli_beta", "hypergeometric_beta_binomial"]
CORRUPT = [["nan", float("nan")], ["inf", float("inf")], ["-inf", float("-inf")], ["negative", -3.0], ["huge", 1e305], ["zero", 0.0]]
PRED = {"binomial_beta", "bernoulli_beta", "negative_binomial_beta", "geometric_beta", "geometric_beta_zero", "poisson_gamma",
        "exponential_gamma", "gamma_known_shape", "normal_known_variance", "normal_known_precision", "normal_known_mean_ig",
        "normal_known_mean_chi2", "normal_nig", "normal_ng", "normal_deprecated"}


def gen_key(rng, shape):
    n = shape[0]
    t = rng.choice(["int", "int", "npint", "slice", "slice", "list", "mask", "intarray", "boollist", "negarray", "narrow", "none"]
                   + (["pair", "mask2", "col", "ellipsis", "ix"] if len(shape) == 2 else []))
    if t in ("int", "npint"):
        return [t, rng.randrange(-n, n)]
    if t == "slice":
        return [t] + rng.choice([[0, 2, None], [None, None, 2], [1, None, None], [None, None, -1], [None, -1, None], [None, None, None],
                                 [-2, None, None], [None, None, -2], [rng.randrange(n), None, None], [None, rng.randint(1, n), None]])
    if t in ("col", "ellipsis"):
        return [t, rng.randrange(-shape[1], shape[1])]
    if t == "negarray":
        return [t, [rng.randrange(-n, 0) for _ in range(rng.randint(1, n))]]
    if t == "ix":
        return [t, [rng.randrange(n) for _ in range(rng.randint(1, 2))], [rng.randrange(shape[1]) for _ in range(rng.randint(1, 2))]]
    if t == "none":
        return [t, rng.choice(["mask", "list", "slice", "array"]), n]
    if t == "narrow":
        ty = rng.choice(["uint8", "int8", "uint8", "int16", "uint64", "int32"])
        return [t, [rng.randrange(0 if ty[0] == "u" else -n, n) for _ in range(rng.randint(1, n + 1))], ty]
    if t in ("list", "intarray"):
        return [t, [rng.randrange(-n, n) for _ in range(rng.randint(1, n + 1))]]
    if t == "pair":
        return [t, rng.randrange(shape[0]), rng.randrange(shape[1])]
    m = [bool(rng.randrange(2)) for _ in range(n if t != "mask2" else n * shape[1])]
    m[rng.randrange(len(m))] = True
    return [t, m]


def key_of(k, shape):
    t = k[0]
    if t == "int":
        return k[1]
    if t == "npint":
        return np.int64(k[1])
    if t == "slice":
        return slice(*k[1:])
    if t in ("list", "boollist"):
        return list(k[1])
    if t in ("intarray", "negarray"):
        return np.array(k[1])
    if t == "narrow":
        return np.array(k[1], dtype=k[2])
    if t == "none":
        return {"mask": np.zeros(k[2], dtype=bool), "list": [], "slice": slice(k[2], None), "array": np.array([], dtype=int)}[k[1]]
    if t == "col":
        return (slice(None), k[1])
    if t == "ellipsis":
        return (Ellipsis, k[1])
    if t == "ix":
        return np.ix_(k[1], k[2])
    if t == "pair":
        return (k[1], k[2])
    return np.array(k[1]) if t == "mask" else np.array(k[1]).reshape(shape)


def gen(rng, i, tier):
    u = i % 10
    if u < 6:
        return gen_history(rng, i)
    if u < 8:
        return gen_density(rng)
    if u == 8:
        return gen_component(rng)
    return gen_transform(rng)


def gen_history(rng, i):
    fam = F.BY_NAME[LANE_FAMS[(i // 10 * 6 + i % 10) % len(LANE_FAMS)]]
    if fam.name.endswith("dirichlet"):
        shape = (rng.choice([2, 3, 5, 11]),)
    else:
        shape = rng.choice([(2,), (3,), (5,), (2, 3), (3, 2), (1, 4), (1,), (2, 2)] if rng.random() < 0.96 else [(9,), (17,), (80,), (4, 6), (9, 12)])
    cfg = fam.gen_cfg(rng, shape)
    K = fam.nlanes(cfg)
    steps = []
    for _ in range(rng.randint(1, 5)):
        st = {"batch": [], "corrupt": [], "shared": rng.random() < 0.15}
        if fam.single:
            st["batch"] = [[ln, fam.gen_obs(rng, fam.lane(cfg, "consts", ln))] for ln in range(K)]
        else:
            for _ in range(rng.choice([0, 1, K, 2 * K])):
                ln = rng.randrange(K)
                st["batch"].append([ln, fam.gen_obs(rng, fam.lane(cfg, "consts", ln))])
        if rng.random() < 0.35:
            for _ in range(rng.choice([1, 1, 2])):
                st["corrupt"].append([rng.randrange(K), rng.randrange(4), rng.randrange(len(CORRUPT))])
        if rng.random() < 0.3 and not fam.name.endswith("dirichlet"):
            st["index"] = rng.randrange(2 ** 31)
            st["keep"] = rng.random() < 0.5
        if rng.random() < 0.4:
            st["look"] = [rng.choice(["scalar", "lane", "outer"]), rng.randrange(2 ** 31)]
        steps.append(st)
    plan = {"mode": "history", "fam": fam.name, "cfg": cfg, "kind": rng.choice(["float", "float", "int"] + (["series"] if len(shape) == 1 and not fam.name.endswith("dirichlet") else [])),
            "steps": steps}
    if rng.random() < 0.15 and not fam.name.endswith("dirichlet"):
        plan["bad_prior"] = [rng.randrange(K), rng.randrange(4), rng.randrange(len(CORRUPT))]
    return plan


def gen_density(rng):
    cls = rng.choice(sorted(X.ELEM))
    spec = X.gen_elem(rng, cls, rng.choice([(2,), (3,), (5,), (2, 3), (1,)] if rng.random() < 0.96 else [(13,), (70,), (3, 25)]))
    bad = None
    names = [f for f, v in spec["fields"].items() if isinstance(v, list)]
    if rng.random() < 0.3:
        bad = [rng.choice(names), rng.randrange(int(np.prod(spec["shape"]))), rng.randrange(2)]
    return {"mode": "density", "spec": spec, "x": X.points(rng, spec, 4), "form": rng.choice(["scalar", "lane", "outer"]), "bad": bad,
            "index": rng.randrange(2 ** 31) if rng.random() < 0.5 else None}


def gen_component(rng):
    spec = X.gen_vector(rng, rng.choice(["MultivariateNormal", "MultivariateStudentT"]))
    d = spec["d"]
    t = rng.choice(["int", "npint", "slice", "list", "mask", "intarray", "narrow"])
    if t in ("int", "npint"):
        key = [t, rng.randrange(-d, d)]
    elif t == "slice":
        key = [t] + rng.choice([[0, 2, None], [None, None, 2], [1, None, None], [None, None, -1]])
    elif t in ("list", "intarray"):
        key = [t, rng.sample(range(d), rng.randint(1, d))]
    elif t == "narrow":
        key = [t, rng.sample(range(d), rng.randint(1, d)), rng.choice(["uint8", "int8", "int32", "uint64"])]
    else:
        m = [bool(rng.randrange(2)) for _ in range(d)]
        m[rng.randrange(d)] = True
        key = [t, m]
    return {"mode": "component", "spec": spec, "key": key, "x": [loc(rng, 3) for _ in range(d)]}


def gen_transform(rng):
    which = rng.choice(["loglik", "scale", "construct", "vectordist"])
    K = rng.choice([2, 3, 5])
    plan = {"mode": "transform", "which": which, "K": K}
    if which == "loglik":
        plan.update(spec=X.gen_prop(rng, rng.choice(X.PROPORTIONAL), (K,)), x=[pos(rng, 0.4, 4), pos(rng, 0.4, 4)],
                    xl=[[pos(rng, 0.4, 4) for _ in range(K)] for _ in range(2)], lane_x=rng.random() < 0.5)
    elif which == "scale":
        cls = rng.choice(["Poisson", "Gamma", "Exponential", "NegativeBinomial", "Normal", "Poisson+"])
        plan.update(spec=X.gen_elem(rng, cls.rstrip("+"), (K,)), other=X.gen_elem(rng, "Poisson", (K,)), k=[rng.randint(1, 6) for _ in range(K)],
                    side=rng.choice("lr"), add=cls.endswith("+"), lane_k=rng.random() < 0.5)
    elif which == "construct":
        plan.update(fn=rng.choice(["Beta.from_mean", "Beta.from_successes_and_failures", "Normal.from_mean_and_variance",
                                   "Normal.from_mean_and_precision", "Gamma.from_occurrences_in_intervals",
                                   "ScaledInverseChiSquared.from_inverse_gamma", "to_inverse_gamma"]),
                    a=[[round(rng.uniform(0.1, 0.9), 4) for _ in range(K)], [pos(rng) for _ in range(K)]])
    else:
        d = rng.randint(2, 4)
        plan.update(alpha=[[pos(rng, 0.5, 9) for _ in range(d)] for _ in range(K)])
    return plan


# ---------------------------------------------------------------- helpers
def lanes_of(v, shape):
    a = np.asarray(v)
    a = np.array(a.tolist(), dtype=float) if a.dtype == object else a.astype(float)
    return np.broadcast_to(a, shape).ravel()


def close(got, want, scale):
    if not np.isfinite(want):      # (-inf) ** 0.5 is inf for a numpy scalar and nan in a numpy array
        return not np.isfinite(got)
    return bool(abs(got - want) <= 1e-9 * abs(want) + 1e-12 * scale)


def numeric_fields(d):
    return {k: v for k, v in X.fields_of(d).items() if v is not None and not isinstance(v, (bool, str))}


def compare(ctx, what, vec, shape, lanes, twins, scales, skip=()):
    """vec: library object with lanes; twins: {lane: scalar object}"""
    vf = numeric_fields(vec)
    for f, v in vf.items():
        try:
            a = lanes_of(v, shape)
        except (ValueError, TypeError) as e:
            ctx.violate("lane-shape", f"{what}: field {f} has shape {np.shape(v)}, lanes {shape}")
        for pos_, ln in enumerate(lanes):
            t = twins[ln]
            if t is None or ln in skip:
                continue
            if type(t) is not type(vec):
                ctx.violate("lane-differs", f"{what}: type {type(vec).__name__}, scalar twin {type(t).__name__}")
            want = float(np.asarray(getattr(t, f), dtype=float).ravel()[0])
            if not close(a[pos_], want, scales[ln]):
                ctx.violate("lane-differs", f"{what}: lane {ln} {f} = {a[pos_]!r}, its scalar computation gives {want!r}")


def full(d, shape):
    for v in numeric_fields(d).values():
        s = np.shape(v)
        if s != () and s != tuple(shape):
            return False
    return True


def execute(plan, ctx):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        {"history": history, "density": density, "component": component, "transform": transform}[plan["mode"]](plan, ctx)


def history(plan, ctx):
    fam = F.BY_NAME[plan["fam"]]
    D, M = lib()
    cfg = copy.deepcopy(plan["cfg"])
    diri = plan["fam"].endswith("dirichlet")
    K = fam.nlanes(cfg)
    shape = tuple(cfg["shape"])
    ctx.hit("history")
    if len(shape) == 2:
        ctx.hit("2d")
    if diri:
        return dirichlet_history(plan, ctx, fam, cfg, K)
    if fam.single:
        ctx.hit("bernoulli")
    if plan.get("bad_prior"):
        ln, fi, ci = plan["bad_prior"]
        names = [f for f, v in cfg["prior"].items() if isinstance(v, list) and np.shape(v) == shape]
        if names:
            a = np.array(cfg["prior"][names[fi % len(names)]])
            a.flat[ln] = CORRUPT[ci][1]
            cfg["prior"][names[fi % len(names)]] = a.tolist()
            ctx.fault("corrupt-prior-lane")
    vec = fam.make_prior(cfg, plan["kind"])
    scfg = [{"fam": fam.name, "shape": [], "prior": fam.lane(cfg, "prior", i), "consts": fam.lane(cfg, "consts", i)} for i in range(K)]
    twins = {i: fam.make_prior(scfg[i], "np64") for i in range(K)}
    mags = {i: 1 + sum(abs(v) for w in ("prior", "consts") for v in scfg[i][w].values() if not isinstance(v, (bool, str)) and np.isfinite(v)) for i in range(K)}
    lanes = list(range(K))                      # lanes present in vec, flat order
    cur = shape
    for n, st in enumerate(plan["steps"]):
        per = [[] for _ in range(K)]
        for ln, o in st["batch"]:
            per[ln].append(o)
        stats = [fam.stats(per[i], fam.lane(plan["cfg"], "consts", i)) for i in range(K)]
        if st["shared"] and stats:
            stats = [dict(stats[0]) for _ in range(K)]
            ctx.hit("shared-data")
        names = list(fam.merge)
        for ln, si, ci in st["corrupt"]:
            if not st["shared"]:
                stats[ln][names[si % len(names)]] = CORRUPT[ci][1]
                ctx.fault("corrupt-" + CORRUPT[ci][0])
                ctx.hit("corrupt-lane")
        if any(not p for p in per):
            ctx.hit("silent-lane")
        values = {}
        for k in names:
            vals = [stats[ln][k] for ln in lanes]
            if st["shared"]:
                values[k] = vals[0]
            elif cur == ():
                values[k] = np.float64(vals[0])
            else:
                a = np.array(vals, dtype=float).reshape(cur)
                if plan["kind"] == "int" and np.all(a == np.round(a)) and np.all(np.abs(a) < 2 ** 53):
                    a = a.astype(np.int64)
                values[k] = a
        consts = {}
        for k, v in plan["cfg"]["consts"].items():
            if isinstance(v, (bool, str)) or not isinstance(v, list):
                consts[k] = v
            elif cur == shape and lanes == list(range(K)):
                consts[k] = np.array(v, dtype=float)
            else:
                a = np.broadcast_to(np.array(v, dtype=float), shape).ravel()[lanes]
                consts[k] = a.reshape(cur) if cur != () else a[0]
        try:
            vec = fam.call(M, vec, values, consts)
        except Exception as e:
            if core.through_package(e):
                ctx.violate("raised", f"{fam.name}: vectorised update raised {type(e).__name__}: {e}")
            raise
        for i in lanes:
            mags[i] += sum(abs(v) for v in stats[i].values() if np.isfinite(v))
            if twins[i] is None:
                continue
            try:
                twins[i] = fam.call(M, twins[i], {k: np.float64(v) for k, v in stats[i].items()},
                                    {k: v if isinstance(v, (bool, str)) else np.float64(v) for k, v in scfg[i]["consts"].items()})
            except (ZeroDivisionError, OverflowError, ValueError, TypeError):
                twins[i] = None             # the scalar computation rejects these values
        scales = {i: min(mags[i], 1e140) ** 2 for i in mags}
        compare(ctx, f"{fam.name} after update {n}", vec, cur, lanes, twins, scales)
        ctx.log(n, fam.name, sorted((k, X.sig(v)) for k, v in X.fields_of(vec).items()))
        ctx.nontrivial = True
        if "look" in st:
            look(ctx, plan, fam, vec, cur, lanes, twins, consts, scfg, st["look"], scales)
        if "index" in st and cur != () and hasattr(type(vec), "__getitem__") and full(vec, cur):
            import random
            key = gen_key(random.Random(st["index"]), cur)
            if plan["kind"] == "series" and key[0] not in ("slice", "mask", "boollist"):
                continue                        # label based in pandas
            if plan["kind"] != "series" and lanes:
                boundary(ctx, f"{fam.name} belief", vec, cur, lanes, twins, scales, random.Random(st["index"] + 1))
            if np.size(np.empty(cur)[key_of(key, cur)]) == 0:
                nothing(ctx, f"{fam.name} belief", vec, key, cur)
                continue
            sub = take(ctx, f"{fam.name} belief", vec, key, cur)
            ids = np.array(lanes).reshape(cur)[key_of(key, cur)]
            nl, ns = np.ravel(ids).tolist(), np.shape(ids)
            compare(ctx, f"{fam.name} belief indexed by {key}", sub, ns, nl, twins, scales)
            compare(ctx, f"{fam.name} belief after indexing by {key}", vec, cur, lanes, twins, scales)
            if st["keep"] and len(set(nl)) == len(nl):
                vec, lanes, cur = sub, nl, tuple(ns)


def boundary(ctx, what, vec, cur, lanes, twins, scales, rng):
    """Iterating visits every lane once and ends; what no lane has cannot be picked."""
    if not any(np.shape(v) for v in numeric_fields(vec).values()):
        return
    n = cur[0]
    u = rng.random()
    if u < 0.3:
        got = []
        try:
            for d in vec:
                got.append(d)
                if len(got) > n:
                    ctx.violate("lane-shape", f"{what} with lanes {cur}: iterating does not end after {n} lanes")
        except Exception as e:
            if isinstance(e, core.StopRun):
                raise
            ctx.violate("index-raised", f"{what} with lanes {cur}: iterating raised {type(e).__name__}: {e}")
        if len(got) != n:
            ctx.violate("lane-shape", f"{what} with lanes {cur}: iterating gives {len(got)} beliefs")
        ids = np.array(lanes).reshape(cur)
        for j, d in enumerate(got):
            compare(ctx, f"{what}, iterated", d, np.shape(ids[j]), np.ravel(ids[j]).tolist(), twins, scales)
        ctx.hit("iterated")
    elif u < 0.6:
        bad = rng.choice([n, n + 3, -n - 1, [0, n], np.array([-n - 1]), [True] * (n + 2)])
        try:
            d = vec[bad]
        except (IndexError, KeyError, ValueError):
            ctx.hit("no-such-lane")
            return
        ctx.violate("no-such-lane", f"{what} with lanes {cur} indexed by {bad!r} gave {X.fields_of(d)!r}")


def take(ctx, what, d, key, shape):
    k = key_of(key, shape)
    ctx.hit("indexed")
    ctx.hit("key-" + {"mask2": "mask", "boollist": "mask", "negarray": "intarray", "narrow": "intarray", "ix": "pair", "col": "pair", "ellipsis": "pair"}.get(key[0], key[0]))
    try:
        sub = d[k]
    except Exception as e:
        ctx.violate("index-raised", f"{what} with lanes {shape} indexed by {key} raised {type(e).__name__}: {e}")
    if type(sub) is not type(d) and shape is not None:
        ctx.violate("index-type", f"{what} indexed by {key} is a {type(sub).__name__}")
    return sub


def nothing(ctx, what, d, key, shape):
    """A selection of no lane has none (a class that needs one may refuse it)."""
    try:
        sub = d[key_of(key, shape)]
    except Exception:
        return
    ctx.hit("selected-none")
    if type(sub) is not type(d):
        ctx.violate("index-type", f"{what} indexed by {key} is a {type(sub).__name__}")
    for f, v in X.fields_of(d).items():
        if np.shape(v) == tuple(shape) and np.size(getattr(sub, f)):
            ctx.violate("lane-differs", f"{what} indexed by {key} has {f} = {getattr(sub, f)!r} though no lane was selected")


def look(ctx, plan, fam, vec, cur, lanes, twins, consts, scfg, how, scales):
    """Predictive or density of the belief, per lane."""
    import random
    rng = random.Random(how[1])
    name = fam.name
    if fam.density_only:
        for th in fam.grid(plan["cfg"])[0][:3]:
            v = lanes_of(prop_log(vec, fam, th, consts), cur)
            for p_, ln in enumerate(lanes):
                if twins[ln] is None:
                    continue
                want = float(np.ravel(prop_log(twins[ln], fam, th, scfg[ln]["consts"]))[0])
                if not close(v[p_], want, 1e4 if np.isfinite(want) else 1):
                    ctx.violate("lane-differs", f"{name}: log density of lane {ln} at {th} is {v[p_]!r}, scalar {want!r}")
        ctx.hit("loglik")
        return
    D, M = lib()
    obj, tw = vec, {ln: t for ln, t in twins.items() if t is not None and usable(t)}
    tw = {ln: tw.get(ln) for ln in twins}
    if name in PRED and rng.random() < 0.7:
        obj = predict(fam, vec, consts, M)
        for ln in lanes:
            if tw[ln] is not None:
                tw[ln] = predict(fam, tw[ln], {k: v if isinstance(v, bool) else np.float64(v) for k, v in scfg[ln]["consts"].items()}, M)
        compare(ctx, f"{name} predictive", obj, cur, lanes, tw, scales)
        ctx.hit("predictive")
    if not hasattr(type(obj), "dist"):
        return
    xs = X.points(rng, {"cls": type(obj).__name__}, max(len(lanes), 2))
    dens(ctx, f"{name}: {type(obj).__name__}", obj, cur, lanes, tw, xs, how[0])


def usable(t):
    """Finite parameters of ordinary size: densities of a corrupt lane are not defined."""
    return all(np.all(np.isfinite(np.asarray(v, dtype=float))) and np.all(np.abs(np.asarray(v, dtype=float)) < 1e100)
               for v in numeric_fields(t).values())


def predict(fam, b, consts, M):
    n = fam.name
    if n == "binomial_beta":
        return M.binomial_beta_predictive(n=7, distribution=b)
    if n == "bernoulli_beta":
        return M.bernoulli_beta_predictive(distribution=b)
    if n == "negative_binomial_beta":
        return M.negative_binomial_beta_predictive(r=consts["r"], distribution=b)
    if n.startswith("geometric"):
        return M.geometric_beta_predictive(distribution=b, one_start=n == "geometric_beta")
    if n == "poisson_gamma":
        return M.poisson_gamma_predictive(distribution=b, n=3)
    if n == "exponential_gamma":
        return M.exponential_gamma_predictive(distribution=b)
    if n == "gamma_known_shape":
        return M.gamma_known_shape_predictive(distribution=b, alpha=consts["alpha"])
    if n == "normal_known_variance":
        return M.normal_known_variance_predictive(var=consts["var"], distribution=b)
    if n == "normal_known_precision":
        return M.normal_known_precision_predictive(precision=consts["precision"], distribution=b)
    if n.startswith("normal_known_mean"):
        return M.normal_known_mean_predictive(mu=consts["mu"], distribution=b)
    if n == "normal_deprecated":
        return M.normal_normal_inverse_gamma_predictive(distribution=b)
    return M.normal_predictive(distribution=b)


def prop_log(b, fam, th, consts):
    n = fam.name
    if n == "gamma_known_rate":
        return b.approx_log_likelihood(th["alpha"], consts["beta"])
    if n == "von_mises_known_concentration":
        return b.log_likelihood(th["mu"])
    if n == "von_mises_known_direction":
        return b.approx_log_likelihood(th["kappa"])
    return b.approx_log_likelihood(th["alpha"], th["beta"])


def dens(ctx, what, obj, cur, lanes, twins, xs, form):
    cls = type(obj).__name__
    disc = cls in X.DISCRETE
    meths = ["pmf" if disc else "pdf"] + ([] if cls in X.HAND_WRITTEN or cls == "BetaNegativeBinomial" else ["cdf"])
    n = len(lanes)
    if any(type(v).__module__.startswith("pandas") for v in numeric_fields(obj).values()) and form == "outer":
        form = "lane"
    if cur == ():
        form = "scalar"
    if form == "scalar":
        x, per = xs[0], lambda i: xs[0]
    elif form == "lane":
        x = np.array([xs[i % len(xs)] for i in range(n)]).reshape(cur)
        per = lambda i: xs[i % len(xs)]
    else:
        xs = xs[:4]
        x = np.array(xs).reshape((len(xs),) + (1,) * len(cur))
    try:
        d = obj.dist
    except Exception as e:
        ctx.violate("raised", f"{what}.dist raised {type(e).__name__}: {e}")
    for m in meths:
        try:
            v = np.asarray(getattr(d, m)(x), dtype=float)
        except Exception as e:
            ctx.violate("raised", f"{what}.dist.{m} with lanes {cur} at {form} points raised {type(e).__name__}: {e}")
        try:
            v = np.broadcast_to(v, ((len(xs),) if form == "outer" else ()) + tuple(cur)).reshape(-1, n)
        except ValueError:
            ctx.violate("lane-shape", f"{what}.dist.{m} with lanes {cur} has shape {v.shape}")
        for p_, ln in enumerate(lanes):
            if twins[ln] is None or (n > 12 and p_ % 7 not in (0, 3) and p_ != n - 1):
                continue
            for r in range(v.shape[0]):
                xx = xs[r] if form == "outer" else per(p_)
                try:
                    want = float(np.ravel(getattr(twins[ln].dist, m)(xx))[0])
                except (ValueError, ZeroDivisionError, OverflowError):
                    continue
                g = v[r, p_]
                if not (close(g, want, 1.0) or abs(g - want) <= 1e-8 * abs(want)):
                    ctx.violate("lane-differs", f"{what}.dist.{m}({xx}) in lane {ln} is {g!r}, scalar {want!r}")
    ctx.hit("density")
    ctx.nontrivial = True


def dirichlet_history(plan, ctx, fam, cfg, K):
    D, M = lib()
    vec = fam.make_prior(cfg, plan["kind"])
    twins = [D.Dirichlet(alpha=np.array(a, dtype=float)) for a in cfg["prior"]["alpha"]]
    ctx.hit("dirichlet")
    for n, st in enumerate(plan["steps"]):
        per = [[] for _ in range(K)]
        for ln, o in st["batch"]:
            per[ln].append(o)
        x = np.array([fam.stats(p, {"d": cfg["d"]})["x"] for p in per], dtype=float)
        for ln, si, ci in st["corrupt"]:
            x[ln, si % cfg["d"]] = CORRUPT[ci][1]
            ctx.fault("corrupt-" + CORRUPT[ci][0])
            ctx.hit("corrupt-lane")
        vec = fam.call(M, vec, {"x": x.copy()}, {})
        twins = [fam.call(M, t, {"x": x[i].copy()}, {}) for i, t in enumerate(twins)]
        got = np.asarray(vec.alpha, dtype=float)
        if got.shape != x.shape:
            ctx.violate("lane-shape", f"{fam.name}: alpha has shape {got.shape}, expected {x.shape}")
        for i in range(K):
            if not np.array_equal(got[i], twins[i].alpha, equal_nan=True):
                ctx.violate("lane-differs", f"{fam.name}: row {i} is {got[i].tolist()}, computed alone {twins[i].alpha.tolist()}")
        ctx.log(n, fam.name, X.arr_sig(got))
        ctx.nontrivial = True


def density(plan, ctx):
    spec = copy.deepcopy(plan["spec"])
    shape = tuple(spec["shape"])
    if plan["bad"]:
        f, ln, how = plan["bad"]
        a = np.broadcast_to(np.array(spec["fields"][f], dtype=float), shape).copy()
        a.flat[ln] = [float("nan"), -1.0][how]
        spec["fields"][f] = a.tolist()
        ctx.fault("corrupt-parameter")
    K = int(np.prod(shape))
    vec = X.build(spec)
    D, _ = lib()
    twins = {i: getattr(D, spec["cls"])(**{k: v if isinstance(v, bool) else np.float64(v) for k, v in X.lane_fields(spec, i).items()}) for i in range(K)}
    if plan["bad"]:
        twins[plan["bad"][1]] = None
    dens(ctx, spec["cls"], vec, shape, list(range(K)), twins, plan["x"], plan["form"])
    ctx.log(spec["cls"], plan["form"], X.sig(vec))
    if plan["index"] is not None and full(vec, shape):
        import random
        key = gen_key(random.Random(plan["index"]), shape)
        if np.size(np.empty(shape)[key_of(key, shape)]) == 0:
            nothing(ctx, spec["cls"], vec, key, shape)
            return
        sub = take(ctx, spec["cls"], vec, key, shape)
        ids = np.arange(K).reshape(shape)[key_of(key, shape)]
        nl = np.ravel(ids).tolist()
        compare(ctx, f"{spec['cls']} indexed by {key}", sub, np.shape(ids), nl, twins, {i: 1.0 for i in range(K)})
        dens(ctx, f"{spec['cls']} indexed by {key}", sub, np.shape(ids), nl, twins, plan["x"], "scalar")
        for f, v in X.fields_of(vec).items():
            if isinstance(v, bool) and getattr(sub, f) is not v and getattr(sub, f) != v:
                ctx.violate("lane-differs", f"{spec['cls']} indexed by {key}: {f} changed from {v} to {getattr(sub, f)}")


def component(plan, ctx):
    spec, key = plan["spec"], plan["key"]
    v = X.build(spec)
    d = spec["d"]
    f = spec["fields"]
    mu = np.array(f["mu"], dtype=float)
    S = np.array(f.get("cov") or f["sigma"], dtype=float)
    k = key_of(key, (d,))
    ctx.hit("component")
    sub = take(ctx, spec["cls"], v, key, None)
    if key[0] in ("int", "npint"):
        want = {"mu": mu[key[1]], "sigma": S[key[1], key[1]] ** 0.5}
        name = {"MultivariateNormal": "Normal", "MultivariateStudentT": "StudentT"}[spec["cls"]]
    else:
        ids = np.arange(d)[k]
        want = {"mu": mu[ids], ("cov" if "cov" in f else "sigma"): S[np.ix_(ids, ids)]}
        name = spec["cls"]
    if "nu" in f:
        want["nu"] = f["nu"]
    if type(sub).__name__ != name:
        ctx.violate("index-type", f"{spec['cls']} indexed by {key} is a {type(sub).__name__}")
    for n, w in want.items():
        g = np.asarray(getattr(sub, n), dtype=float)
        w = np.asarray(w, dtype=float)
        if g.shape != w.shape or not np.allclose(g, w, rtol=1e-12, atol=0):
            ctx.violate("lane-differs", f"{spec['cls']} indexed by {key}: {n} = {g.tolist()}, expected {w.tolist()}")
    ctx.log(spec["cls"], key, X.sig(sub))
    ctx.nontrivial = True


def transform(plan, ctx):
    D, M = lib()
    K, w = plan["K"], plan["which"]
    ctx.hit("transform")
    ctx.nontrivial = True
    if w == "vectordist":
        al = np.array(plan["alpha"])
        m = np.asarray(D.Dirichlet(alpha=al).dist.mean())
        for i in range(K):
            want = D.Dirichlet(alpha=al[i]).dist.mean()
            if m.shape != al.shape or not np.allclose(m[i], want, rtol=1e-12):
                ctx.violate("lane-differs", f"Dirichlet mean, row {i}: {m.tolist()}, alone {want.tolist()}")
        ctx.log(w, X.arr_sig(m))
        return
    if w == "construct":
        a, b = np.array(plan["a"][0]), np.array(plan["a"][1])

        def fn(a, b):
            n = plan["fn"]
            if n == "ScaledInverseChiSquared.from_inverse_gamma":
                return D.ScaledInverseChiSquared.from_inverse_gamma(D.InverseGamma(a, b))
            if n == "to_inverse_gamma":
                return D.ScaledInverseChiSquared(a, b).to_inverse_gamma()
            c, m = n.split(".")
            return getattr(getattr(D, c), m)(a, b)
        vec = fn(a, b)
        compare(ctx, plan["fn"], vec, (K,), range(K), {i: fn(a[i], b[i]) for i in range(K)}, {i: 1.0 for i in range(K)})
        ctx.log(plan["fn"], X.sig(vec))
        return
    spec = plan["spec"]
    vec = X.build(spec)
    cls = getattr(D, spec["cls"])
    lane = [cls(**{k: np.float64(v) for k, v in X.lane_fields(spec, i).items()}) for i in range(K)]
    if w == "loglik":
        xs = [np.array(v) for v in plan["xl"]] if plan["lane_x"] else plan["x"]
        n = 1 if spec["cls"].startswith("VonMises") else 2
        f = (lambda d, *x: d.log_likelihood(*x)) if hasattr(cls, "log_likelihood") else (lambda d, *x: d.approx_log_likelihood(*x))
        v = lanes_of(f(vec, *xs[:n]), (K,))
        for i in range(K):
            want = float(f(lane[i], *[np.float64(x[i]) if plan["lane_x"] else x for x in xs[:n]]))
            if not close(v[i], want, 100.0):
                ctx.violate("lane-differs", f"{spec['cls']} log density in lane {i}: {v[i]!r}, scalar {want!r}")
        ctx.hit("loglik")
        ctx.log(w, X.arr_sig(v))
        return
    ks = np.array(plan["k"]) if plan["lane_k"] else plan["k"][0]
    if plan["add"]:
        o = X.build(plan["other"])
        vec2 = vec + o
        ol = [D.Poisson(np.float64(X.lane_fields(plan["other"], i)["lam"])) for i in range(K)]
        tw = {i: lane[i] + ol[i] for i in range(K)}
    elif plan["side"] == "l" or plan["lane_k"]:
        vec2 = vec * ks
        tw = {i: lane[i] * (plan["k"][i] if plan["lane_k"] else ks) for i in range(K)}
    else:
        vec2 = ks * vec
        tw = {i: ks * lane[i] for i in range(K)}
    compare(ctx, f"scaled {spec['cls']}", vec2, (K,), range(K), tw, {i: 1.0 for i in range(K)})
    ctx.log(w, X.sig(vec2))


def shrink(plan):
    if plan["mode"] == "history":
        st = plan["steps"]
        for c in core.list_drops(st):
            if c:
                yield dict(plan, steps=c)
        for k, s in enumerate(st):
            if s["corrupt"]:
                yield dict(plan, steps=st[:k] + [dict(s, corrupt=[])] + st[k + 1:])
            for f in ("look", "index"):
                if f in s:
                    yield dict(plan, steps=st[:k] + [{a: b for a, b in s.items() if a != f}] + st[k + 1:])
            if not F.BY_NAME[plan["fam"]].single:
                for c in core.list_drops(s["batch"]):
                    yield dict(plan, steps=st[:k] + [dict(s, batch=c)] + st[k + 1:])
        if plan.get("bad_prior"):
            yield dict(plan, bad_prior=None)
    elif plan["mode"] == "density":
        if plan["bad"]:
            yield dict(plan, bad=None)
        if plan["index"] is not None:
            yield dict(plan, index=None)


def known_plan(kid):
    raise KeyError(kid)
