"""C09: several nodes, each holding a belief of its own family, exchange updates through a router that misroutes: the belief attached to a
message is another node's, stale garbage, or missing.  The receiving call must reject it by type before touching the message's data, and
every node must end where a twin ends that only ever saw the correctly routed messages."""
import types
import warnings

import numpy as np

from .. import core
from .. import dists as X
from .. import families as F
from ..families import lib

ID = "C09"
RUNS = {"quick": 12000, "thorough": 150000}
CHUNK = 100
BUDGET_S = {"quick": 240, "thorough": 2400}
RULE = "a run in which at least one misrouted belief was rejected and every node was compared with its twin; distinct by event log"
REAL = ["conjugate.models (all model and predictive functions), conjugate.distributions"]
STUB = ["the router and the nodes' message data; tripwire objects in place of data"]
ASSUMPTIONS = ["instances of subclasses of an accepted family count as members of the family"]

NIG_NG = ("NormalInverseGamma", "NormalGamma")
IG_CHI = ("InverseGamma", "ScaledInverseChiSquared")
# function -> (parameter, accepted families, data keywords); written from the documentation, not from the annotations
TABLE = {
    "binomial_beta": ("prior", ("Beta",), "n x"),
    "binomial_beta_predictive": ("distribution", ("Beta",), "n"),
    "bernoulli_beta": ("prior", ("Beta",), "x"),
    "bernoulli_beta_predictive": ("distribution", ("Beta",), ""),
    "negative_binomial_beta": ("prior", ("Beta",), "r n x"),
    "negative_binomial_beta_predictive": ("distribution", ("Beta",), "r"),
    "hypergeometric_beta_binomial": ("prior", ("BetaBinomial",), "x_total n"),
    "geometric_beta": ("prior", ("Beta",), "x_total n"),
    "geometric_beta_predictive": ("distribution", ("Beta",), ""),
    "categorical_dirichlet": ("prior", ("Dirichlet",), "x"),
    "categorical_dirichlet_predictive": ("distribution", ("Dirichlet",), "n"),
    "multinomial_dirichlet": ("prior", ("Dirichlet",), "x"),
    "multinomial_dirichlet_predictive": ("distribution", ("Dirichlet",), "n"),
    "poisson_gamma": ("prior", ("Gamma",), "x_total n"),
    "poisson_gamma_predictive": ("distribution", ("Gamma",), "n"),
    "exponential_gamma": ("prior", ("Gamma",), "x_total n"),
    "exponential_gamma_predictive": ("distribution", ("Gamma",), ""),
    "gamma_known_shape": ("prior", ("Gamma",), "x_total n alpha"),
    "gamma_known_shape_predictive": ("distribution", ("Gamma",), "alpha"),
    "inverse_gamma_known_rate": ("prior", ("Gamma",), "reciprocal_x_total n alpha"),
    "normal_known_variance": ("prior", ("Normal",), "x_total n var"),
    "normal_known_variance_predictive": ("distribution", ("Normal",), "var"),
    "normal_known_precision": ("prior", ("Normal",), "x_total n precision"),
    "normal_known_precision_predictive": ("distribution", ("Normal",), "precision"),
    "normal_known_mean": ("prior", IG_CHI, "x_total x2_total n mu"),
    "normal_known_mean_predictive": ("distribution", IG_CHI, "mu"),
    "normal": ("prior", NIG_NG, "x_total x2_total n"),
    "normal_normal_inverse_gamma": ("prior", ("NormalInverseGamma",), "x_total x2_total n"),
    "normal_predictive": ("distribution", NIG_NG, ""),
    "normal_normal_inverse_gamma_predictive": ("distribution", ("NormalInverseGamma",), ""),
    "linear_regression": ("prior", ("NormalInverseGamma",), "X y"),
    "linear_regression_predictive": ("distribution", ("NormalInverseGamma",), "X"),
    "uniform_pareto": ("prior", ("Pareto",), "x_max n"),
    "pareto_gamma": ("prior", ("Gamma",), "n ln_x_total x_m"),
    "gamma": ("prior", ("GammaProportional",), "x_total x_prod n"),
    "gamma_known_rate": ("prior", ("GammaKnownRateProportional",), "x_prod n beta"),
    "beta": ("prior", ("BetaProportional",), "x_prod one_minus_x_prod n"),
    "von_mises_known_concentration": ("prior", ("VonMisesKnownConcentration",), "cos_total sin_total n kappa"),
    "von_mises_known_direction": ("prior", ("VonMisesKnownDirectionProportional",), "centered_cos_total n"),
    "multivariate_normal_known_covariance": ("prior", ("MultivariateNormal",), "n x_bar cov"),
    "multivariate_normal_known_covariance_predictive": ("distribution", ("MultivariateNormal",), "cov"),
    "multivariate_normal_known_precision": ("prior", ("MultivariateNormal",), "n x_bar precision"),
    "multivariate_normal_known_precision_predictive": ("distribution", ("MultivariateNormal",), "precision"),
    "multivariate_normal_known_mean": ("prior", ("InverseWishart",), "X mu"),
    "multivariate_normal": ("prior", ("NormalInverseWishart",), "X"),
    "multivariate_normal_predictive": ("distribution", ("NormalInverseWishart",), ""),
    "log_normal": ("prior", NIG_NG, "ln_x_total ln_x2_total n"),
    "weibull_inverse_gamma_known_shape": ("prior", ("InverseGamma",), "n x_beta_total"),
}
FUNCS = sorted(TABLE)
CLASSES = sorted(X.ELEM) + sorted(set(X.VECTORS) - {"NormalInverseGammaNd"}) + X.PROPORTIONAL
JUNK = ["None", "missing", "class", "int", "float", "str", "dict", "array", "list", "namespace", "scipy", "tuple", "subclass-of-other",
        "series", "frame", "function", "module", "named", "instance"]
WRONG = CLASSES + JUNK
PROBES = ["rejected", "subclass", "junk", "tripwire", "real-data", "twin"] + ["fn-" + f for f in FUNCS]


class Touched(BaseException):
    pass


class Tripwire:
    """Stands for the data of a message; any use of it is recorded and stops the call."""
    def __init__(self):
        object.__setattr__(self, "_t", [])

    def __getattribute__(self, name):
        if name in ("_t", "__class__"):
            return object.__getattribute__(self, name)
        object.__getattribute__(self, "_t").append(name)
        raise Touched(name)


def _trip(name):
    def f(self, *a, **k):
        object.__getattribute__(self, "_t").append(name)
        raise Touched(name)
    return f


for _n in ("add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow neg pos abs matmul rmatmul eq ne lt le gt ge "
           "bool len iter getitem setitem contains float int index round array array_ufunc array_function call hash str repr format "
           "copy deepcopy iadd isub imul itruediv getattr reduce_ex").split():
    setattr(Tripwire, f"__{_n}__", _trip(f"__{_n}__"))


def gen_wrong(rng, w):
    if w in X.ELEM:
        return [w, X.gen_elem(rng, w, rng.choice([(), (), (3,)]))]
    if w in X.VECTORS:
        n = w
        if w == "NormalInverseGamma" and rng.random() < 0.5:
            n = "NormalInverseGammaNd"
        return [w, X.gen_vector(rng, n)]
    if w in X.PROPORTIONAL:
        return [w, X.gen_prop(rng, w)]
    return [w, rng.choice(CLASSES)]


def gen_belief(rng, w):
    return gen_wrong(rng, w)[1]


def gen(rng, i, tier):
    """Nodes, their message streams, and the router's mistakes."""
    nf = len(FUNCS)
    nodes = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        fam = F.BY_NAME[rng.choice([f.name for f in F.ALL])]
        shape = rng.choice([(), (), (3,)]) if fam.lanes else ()
        cfg = fam.gen_cfg(rng, shape)
        K = fam.nlanes(cfg)
        msgs = []
        for _ in range(rng.randint(1, 3)):
            b = []
            for _ in range(1 if fam.single else rng.choice([1, 2, 3])):
                ln = rng.randrange(K)
                b.append([ln, fam.gen_obs(rng, fam.lane(cfg, "consts", ln))])
            msgs.append(b)
        nodes.append({"fam": fam.name, "cfg": cfg, "kind": rng.choice(fam.kinds(cfg["shape"])), "msgs": msgs,
                      "sub": rng.random() < 0.1})
    steps = []
    left = [len(n["msgs"]) for n in nodes]
    fi, wi = i % nf, (i // nf) % len(WRONG)
    while any(left):
        k = rng.choice([j for j, l in enumerate(left) if l])
        r = rng.random()
        if r < 0.35:
            # the belief attached to the message is another node's (or of a class nobody here holds)
            src = rng.randrange(len(nodes) + 1)
            w = ["node", src] if src < len(nodes) else gen_wrong(rng, rng.choice(WRONG))
            steps.append(["misroute", k, w])
        else:
            steps.append(["deliver", k])
            left[k] -= 1
        if rng.random() < 0.5 or not steps[:-1]:
            # any function of the package, with any wrong belief; data are tripwires
            steps.append(["call", FUNCS[fi], gen_wrong(rng, WRONG[wi])])
            fi, wi = rng.randrange(nf), rng.randrange(len(WRONG))
    return {"nodes": nodes, "steps": steps}


def make_wrong(spec):
    D, M = lib()
    w, arg = spec
    if w in CLASSES:
        return X.build(arg)
    cls = getattr(D, arg)
    if w in ("None", "missing"):
        return None
    if w == "class":
        return cls
    if w == "int":
        return 3
    if w == "float":
        return 2.5
    if w == "str":
        return arg
    if w == "dict":
        return {"alpha": 1.0, "beta": 2.0}
    if w == "array":
        return np.array([1.0, 2.0])
    if w == "list":
        return [1.0, 2.0]
    if w == "tuple":
        return (1.0, 2.0)
    if w == "namespace":
        return types.SimpleNamespace(alpha=1.0, beta=2.0, mu=0.0, sigma=1.0, nu=1.0, lam=1.0, n=2, p=0.5, q=0.5, r=1.0, s=1.0, k=1.0, a=1.0,
                                     b=1.0, c=1.0, x_m=1.0, cov=np.eye(2), psi=np.eye(2), kappa=1.0, sigma2=1.0, delta_inverse=None)
    if w == "scipy":
        import scipy.stats
        return scipy.stats.norm(0, 1)
    if w == "series":
        import pandas as pd
        return pd.Series([1.0, 2.0], name="alpha")
    if w == "frame":
        import pandas as pd
        return pd.DataFrame({"alpha": [1.0, 2.0], "beta": [1.0, 3.0]})
    if w == "function":
        return len
    if w == "module":
        return types
    if w == "named":
        # a distribution of the caller's own that says of itself what it is
        like = D.Uniform if cls is D.Weibull else D.Weibull
        t = type("Named", (like,), {"name": arg, "__name__": arg, "kind": arg, "label": arg, "type": cls})
        return t(1.0, 2.0)
    if w == "instance":
        return type("Wrapped", (), {"wrapped": cls, "__wrapped__": cls, "prior": cls, "distribution": cls, "value": cls})()
    # a class of the caller's own that has nothing to do with the package but the same name
    return type(arg, (), {"alpha": 1.0, "beta": 2.0, "mu": 0.0, "sigma": 1.0, "nu": 1.0})()


def model_of(fam):
    n = fam.name
    if n.startswith("geometric_beta"):
        return "geometric_beta"
    if n.startswith("normal_known_mean"):
        return "normal_known_mean"
    if n in ("normal_nig", "normal_ng"):
        return "normal"
    if n == "normal_deprecated":
        return "normal_normal_inverse_gamma"
    if n.startswith("log_normal"):
        return "log_normal"
    return n


def rejected(ctx, what, wrong, fn, touched=None):
    try:
        out = fn()
    except ValueError as e:
        name = type(wrong).__name__
        if name not in str(e):
            ctx.violate("unnamed", f"{what}: the ValueError does not name the type received ({name}): {e}")
    except Touched as e:
        ctx.violate("data-first", f"{what}: the data was used ({e}) before the belief was rejected")
    except Exception as e:
        ctx.violate("wrong-error", f"{what}: raised {type(e).__name__} ({e}) instead of ValueError")
    else:
        ctx.violate("accepted", f"{what}: accepted, returned {type(out).__name__}")
    if touched and any(t._t for t in touched):
        ctx.violate("data-first", f"{what}: the data was used ({[t._t for t in touched if t._t]}) before the belief was rejected")
    ctx.hit("rejected")


def execute(plan, ctx):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        run(plan, ctx)


def run(plan, ctx):
    D, M = lib()
    nodes, twins = [], []
    for n in plan["nodes"]:
        fam = F.BY_NAME[n["fam"]]
        b = fam.make_prior(n["cfg"], n["kind"])
        t = fam.make_prior(n["cfg"], n["kind"])
        if n["sub"]:
            sub = type("My" + type(b).__name__, (type(b),), {})
            b = sub(**X.fields_of(b))
            ctx.hit("subclass")
        nodes.append(b)
        twins.append(t)
    pos_ = [0] * len(nodes)

    def values(k):
        n = plan["nodes"][k]
        fam = F.BY_NAME[n["fam"]]
        return fam, n, fam.stat_values(n["cfg"], fam.batch_stats(n["cfg"], n["msgs"][pos_[k]]), n["kind"]), fam.consts(n["cfg"], n["kind"])

    for s in plan["steps"]:
        if s[0] == "deliver":
            k = s[1]
            if pos_[k] >= len(plan["nodes"][k]["msgs"]):
                continue
            fam, n, v, c = values(k)
            nodes[k] = fam.call(M, nodes[k], v, c)
            fam, n, v, c = values(k)
            twins[k] = fam.call(M, twins[k], v, c)
            pos_[k] += 1
            ctx.log("deliver", k, n["fam"], X.sig(nodes[k]))
            continue
        if s[0] == "misroute":
            k = s[1]
            if pos_[k] >= len(plan["nodes"][k]["msgs"]):
                continue
            fam, n, v, c = values(k)
            fname = model_of(fam)
            if s[2][0] == "node":
                if s[2][1] >= len(nodes):
                    continue
                wrong = nodes[s[2][1]]
            else:
                wrong = make_wrong(s[2])
            if isinstance(wrong, tuple(getattr(D, a) for a in TABLE[fname][1])):
                continue
            before = [X.sig(b) for b in nodes] + [X.sig(v), X.sig(c), X.sig(wrong)]
            ctx.fault("misrouted-belief")
            what = f"{fname} given a {type(wrong).__name__}"
            rejected(ctx, what, wrong, lambda: fam.call(M, wrong, v, c))
            if before != [X.sig(b) for b in nodes] + [X.sig(v), X.sig(c), X.sig(wrong)]:
                ctx.violate("changed", f"{what}: a belief or the data changed")
            ctx.hit("real-data")
            ctx.log("misroute", k, what)
            continue
        _, fname, spec = s
        param, accepted, data = TABLE[fname]
        wrong = make_wrong(spec)
        if isinstance(wrong, tuple(getattr(D, a) for a in accepted)):
            continue
        args = {k: Tripwire() for k in data.split()}
        trips = list(args.values())
        if spec[0] != "missing":
            args[param] = wrong
        before = [X.sig(b) for b in nodes] + [X.sig(wrong)]
        f = getattr(M, fname)
        what = f"{fname}({param}=<{type(wrong).__name__}>)"
        rejected(ctx, what, wrong, lambda: f(**args), trips)
        if before != [X.sig(b) for b in nodes] + [X.sig(wrong)]:
            ctx.violate("changed", f"{what}: a belief changed")
        ctx.fault("wrong-family" if spec[0] in CLASSES else "junk-belief")
        ctx.hit("junk" if spec[0] in JUNK else "tripwire")
        ctx.hit("fn-" + fname)
        ctx.log("call", what)
        ctx.nontrivial = True
    for k, (b, t) in enumerate(zip(nodes, twins)):
        a, e = X.fields_of(b), X.fields_of(t)
        if X.sig(a) != X.sig(e):
            ctx.violate("twin-differs", f"node {k} ({plan['nodes'][k]['fam']}) ends with {a}, its undisturbed twin with {e}")
        ctx.hit("twin")


def shrink(plan):
    for c in core.list_drops(plan["steps"]):
        yield dict(plan, steps=c)
    for k, n in enumerate(plan["nodes"]):
        if n["sub"]:
            yield dict(plan, nodes=plan["nodes"][:k] + [dict(n, sub=False)] + plan["nodes"][k + 1:])


def known_plan(kid):
    raise KeyError(kid)
