"""C08: the inputs of a pipeline of library calls are promises.  The whole result is built first; then the inputs resolve in a
seeded order, look-ups that come too early fail, inputs are re-bound and everything is evaluated again.  Each evaluation is compared
with the same calls on the numbers themselves."""
import math
import sys

import numpy as np
import scipy.special as sp

from .. import core
from .. import dists as X
from .. import families as F
from ..families import lib, pos, loc
from ..threads import in_package

ID = "C08"
RUNS = {"quick": 30000, "thorough": 150000}
CHUNK = 100
BUDGET_S = {"quick": 240, "thorough": 2400}
RULE = ("a run in which at least one library call was built on unresolved inputs and later evaluated and compared with eager numbers; "
        "distinct by hash of the event log")
REAL = ["conjugate.models, conjugate.distributions (constructors, operators, conversions, log likelihoods)"]
STUB = ["the inputs: promises that know + - * / ** and unary signs only (strict), or whose comparisons build expressions and whose "
        "truth value is always True (SQL-like)", "functions supplied by the caller"]
ASSUMPTIONS = ["eager numbers are floats, ints, numpy floats or columns (1-D arrays)", "agreement to 1e-10 relative (the same arithmetic "
               "is carried out on both sides)"]
PROBES = ["pipeline", "predictive", "loglik", "scale", "construct", "array-fn", "column", "sql", "late-lookup", "rebound", "failed-build",
          "fn-ln", "fn-max_fn", "fn-sin", "fn-cos", "fn-arctan2", "fn-gammaln", "fn-i0", "fn-inv", "fn-outer", "fn-eye"]

FAMS = ["binomial_beta", "bernoulli_beta", "negative_binomial_beta", "hypergeometric_beta_binomial", "geometric_beta",
        "geometric_beta_zero", "poisson_gamma", "exponential_gamma", "gamma_known_shape", "inverse_gamma_known_rate",
        "normal_known_variance", "normal_known_precision", "normal_known_mean_ig", "normal_known_mean_chi2", "normal_nig",
        "normal_ng", "normal_deprecated", "log_normal_nig", "log_normal_ng", "weibull_inverse_gamma_known_shape", "gamma",
        "gamma_known_rate", "beta", "von_mises_known_direction", "von_mises_known_concentration", "pareto_gamma", "uniform_pareto"]
NO_PRED = {"hypergeometric_beta_binomial", "inverse_gamma_known_rate", "weibull_inverse_gamma_known_shape", "pareto_gamma", "uniform_pareto",
           "log_normal_nig", "log_normal_ng"}
CONSTRUCT = {"Beta.from_mean": ["prob", "pos"], "Beta.from_successes_and_failures": ["pos", "pos"],
             "Gamma.from_occurrences_in_intervals": ["pos", "pos"], "Normal.uninformative": ["pos"],
             "Normal.from_mean_and_variance": ["loc", "pos"], "Normal.from_mean_and_precision": ["loc", "pos"],
             "NormalInverseGamma.from_inverse_gamma": ["loc", "pos", "pos", "pos"],
             "ScaledInverseChiSquared.from_inverse_gamma": ["pos", "pos"], "to_inverse_gamma": ["pos", "pos"],
             "inverse_gamma": ["loc", "pos", "pos", "pos"], "gamma": ["loc", "pos", "pos", "pos"]}
ARRAY_FN = ["linear_regression", "linear_regression_predictive", "mvn_cov", "mvn_prec", "mvn_prec_pred", "mvn", "NormalWishart"]
OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "**": lambda a, b: a ** b,
       "==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b,
       ">=": lambda a, b: a >= b, "neg": lambda a: -a, "pos": lambda a: +a, "abs": lambda a: abs(a)}


class Looked(TypeError):
    """Somebody looked at the value of a promise."""


class Unresolved(Exception):
    pass


class BuildFault(Exception):
    pass


class Promise:
    """A number that is not known yet."""
    __array_ufunc__ = None
    __hash__ = object.__hash__

    def __init__(self, world, op, args):
        self._w, self._op, self._args = world, op, args

    def __deepcopy__(self, memo):
        return self

    def _mk(self, op, *args):
        for a in args:
            if not isinstance(a, (Promise, int, float, np.number, np.ndarray)):
                return NotImplemented
        self._w.tick()
        return Promise(self._w, op, args)

    def __add__(self, o): return self._mk("+", self, o)
    def __radd__(self, o): return self._mk("+", o, self)
    def __sub__(self, o): return self._mk("-", self, o)
    def __rsub__(self, o): return self._mk("-", o, self)
    def __mul__(self, o): return self._mk("*", self, o)
    def __rmul__(self, o): return self._mk("*", o, self)
    def __truediv__(self, o): return self._mk("/", self, o)
    def __rtruediv__(self, o): return self._mk("/", o, self)
    def __pow__(self, o): return self._mk("**", self, o)
    def __rpow__(self, o): return self._mk("**", o, self)
    def __neg__(self): return self._mk("neg", self)
    def __pos__(self): return self._mk("pos", self)

    def _look(self, how):
        raise Looked(f"the value of a promise was looked at ({how})")

    def _cmp(self, op, o):
        if self._w.style == "sql":
            return self._mk(op, self, o)
        self._look(op)

    def __eq__(self, o): return self._cmp("==", o)
    def __ne__(self, o): return self._cmp("!=", o)
    def __lt__(self, o): return self._cmp("<", o)
    def __le__(self, o): return self._cmp("<=", o)
    def __gt__(self, o): return self._cmp(">", o)
    def __ge__(self, o): return self._cmp(">=", o)

    def __bool__(self):
        if self._w.style == "sql":
            return True
        self._look("bool")

    def __float__(self): self._look("float")
    def __int__(self): self._look("int")
    def __index__(self): self._look("index")
    def __abs__(self): self._look("abs")
    def __round__(self, n=None): self._look("round")


class World:
    """Promises, their current values, and the caller's own functions."""

    def __init__(self, style, distort):
        self.style, self.distort = style, distort
        self.env = {}
        self.ops = 0
        self.fail_at = None
        self.used = {}

    def tick(self):
        self.ops += 1
        if self.fail_at is not None and self.ops == self.fail_at:
            raise BuildFault()

    def leaf(self, name):
        return Promise(self, "leaf", (name,))

    def evaluate(self, v, memo=None):
        memo = {} if memo is None else memo
        if isinstance(v, np.ndarray) and v.dtype == object and v.shape == ():
            v = v[()]
        if not isinstance(v, Promise):
            return v
        if id(v) not in memo:
            if v._op == "leaf":
                n = v._args[0]
                if n not in self.env:
                    raise Unresolved(n)
                memo[id(v)] = self.env[n]
            elif callable(v._op):
                memo[id(v)] = v._op(*[self.evaluate(a, memo) for a in v._args])
            else:
                memo[id(v)] = OPS[v._op](*[self.evaluate(a, memo) for a in v._args])
        return memo[id(v)]

    def fn(self, name):
        """The caller's function: works on promises and numbers, keeps the algebraic laws of the real one, is not the real one."""
        c = self.distort
        f = {"ln": lambda x: c * np.log(x), "gammaln": lambda x: c * sp.gammaln(x), "i0": lambda x: (1 + c) * sp.i0(x),
             "max_fn": lambda a, b: np.maximum(a, b), "sin": lambda x: np.sin(x + c), "cos": lambda x: np.cos(x + c),
             "arctan2": lambda y, x: np.arctan2(y, x) + 2 * np.pi, "inv": lambda m: np.linalg.inv(m), "outer": lambda a, b: np.outer(a, b),
             "eye": lambda n: np.eye(n)}[name]

        def g(*a, **k):
            self.used[name] = self.used.get(name, 0) + 1
            if k:
                raise TypeError("the caller's functions take positional arguments")
            if any(isinstance(x, Promise) for x in a):
                self.tick()
                return Promise(self, f, a)
            return f(*a)
        return g


# ---------------------------------------------------------------- plans
def gen_pipeline(rng, fam, K):
    """One environment: numbers for every named input."""
    cfg = fam.gen_cfg(rng, (K,) if K else ())
    if K:
        for d in ("prior", "consts"):
            for f, v in cfg[d].items():
                if not isinstance(v, (list, bool, str)):
                    cfg[d][f] = [v] * K
    return cfg


def gen(rng, i, tier):
    u = i % 10
    style = rng.choice(["strict", "strict", "sql"])
    base = {"style": style, "distort": rng.choice([0.5, 2.0, 1.25, 3.0]), "n_env": rng.choice([1, 2, 2, 3]), "column": 0,
            "resolve": rng.randrange(2 ** 31), "fail": rng.choice([None, None, rng.randint(1, 12)])}
    if rng.random() < 0.25:
        base["column"] = rng.choice([1, 2, 4])
    K = base["column"]
    num = rng.choice(["float", "float", "np", "int"])
    base["num"] = num
    if u < 6:
        fam = F.BY_NAME[FAMS[(i // 10 * 6 + u) % len(FAMS)]]
        nb = 1 if fam.single and rng.random() < 0.5 else rng.choice([1, 1, 2, 3])
        envs = []
        for _ in range(base["n_env"]):
            cfg = gen_pipeline(rng, fam, K)
            if envs:
                for f, v in cfg["consts"].items():
                    if isinstance(v, bool):
                        cfg["consts"][f] = envs[0]["cfg"]["consts"][f]
            batches = []
            for _ in range(nb):
                b = []
                for ln in range(K or 1):
                    for _ in range(1 if fam.single else rng.choice([0, 1, 2, 4])):
                        b.append([ln, fam.gen_obs(rng, fam.lane(cfg, "consts", ln))])
                batches.append(b)
            envs.append({"cfg": cfg, "batches": batches, "x": [pos(rng, 0.4, 4), pos(rng, 0.4, 4)], "pn": rng.randint(1, 9)})
        return dict(base, mode="pipeline", fam=fam.name, envs=envs, nb=nb, mask=rng.randrange(2 ** 24) | (1 << rng.randrange(10)),
                    all=rng.random() < 0.4, pred=rng.random() < 0.7)
    if u == 6 or u == 7:
        cls = rng.choice(["Poisson", "Gamma", "Exponential", "NegativeBinomial", "Normal"])
        steps = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            # (numpy itself takes over array * distribution and returns an array of distributions)
            steps.append([rng.choice(["l", "l" if K else "r", "add" if cls == "Poisson" else "l"]), rng.random() < 0.6])
        shape = (K,) if K else ()
        envs = []
        for _ in range(base["n_env"]):
            full = X.gen_elem(rng, cls, shape)["fields"]
            envs.append({"fields": full, "k": [[rng.randint(1, 6) for _ in range(K)] if K else rng.randint(1, 6) for _ in steps]})
        return dict(base, mode="scale", cls=cls, steps=steps, envs=envs, mask=rng.randrange(256), direct=rng.random() < 0.2)
    if u == 8:
        which = rng.choice(sorted(CONSTRUCT) + ["class"] * 6)
        kinds = CONSTRUCT.get(which)
        spec = None
        if which == "class":
            cls = rng.choice(sorted(set(X.ELEM) - {"UserArcsine"}))      # (that one looks at its own parameters)
            spec = {"cls": cls, "fields": [f for f, g in X.ELEM[cls].items() if g != "bool"]}
            envs = [{"a": [X.ELEM[cls][f](rng) for f in spec["fields"]]} for _ in range(base["n_env"])]
        else:
            draw = {"prob": lambda: round(rng.uniform(.05, .95), 4), "pos": lambda: pos(rng), "loc": lambda: loc(rng)}
            envs = [{"a": [draw[k]() for k in kinds]} for _ in range(base["n_env"])]
        base["column"] = 0
        return dict(base, mode="construct", which=which, spec=spec, envs=envs, mask=rng.randrange(1, 256))
    which = rng.choice(ARRAY_FN)
    from .. import ops
    for _ in range(200):
        op = ops.gen_callback(rng)
        if op["which"] == which:
            break
    return dict(base, mode="array-fn", op=op)


# ---------------------------------------------------------------- the calls
def named_inputs(fam, env, kind):
    """Every input of the pipeline by name -> number."""
    cfg = env["cfg"]
    D, M = lib()
    prior = fam.make_prior(cfg, kind)
    out = {}
    for k, v in X.fields_of(prior).items():
        if v is not None and not isinstance(v, (bool, str)):
            out["p." + k] = v
    for k, v in fam.consts(cfg, kind).items():
        if not isinstance(v, (bool, str)):
            out["c." + k] = v
    for j, b in enumerate(env["batches"]):
        for k, v in fam.stat_values(cfg, fam.batch_stats(cfg, b), kind).items():
            out[f"b{j}.{k}"] = v
    out["x.0"], out["x.1"], out["pn"] = env["x"][0], env["x"][1], env["pn"]
    return out, type(prior), {k: v for k, v in fam.consts(cfg, kind).items() if isinstance(v, (bool, str))}


def call(fam, M, prior, vals, consts, w):
    n = fam.name
    if n == "pareto_gamma":
        return M.pareto_gamma(prior=prior, ln=w.fn("ln"), **consts, **vals)
    if n == "uniform_pareto":
        return M.uniform_pareto(prior=prior, max_fn=w.fn("max_fn"), **vals)
    if n == "von_mises_known_concentration":
        return M.von_mises_known_concentration(prior=prior, sin=w.fn("sin"), cos=w.fn("cos"), arctan2=w.fn("arctan2"), **consts, **vals)
    return fam.call(M, prior, vals, consts)


def predict(fam, M, b, c, inp, w):
    n = fam.name
    x0, x1 = inp["x.0"], inp["x.1"]
    if fam.density_only:
        if n == "von_mises_known_concentration":
            return b.log_likelihood(x0, cos=w.fn("cos"), ln=w.fn("ln"), i0=w.fn("i0"))
        if n == "von_mises_known_direction":
            return b.approx_log_likelihood(x0, ln=w.fn("ln"), i0=w.fn("i0"))
        return b.approx_log_likelihood(x0, x1, ln=w.fn("ln"), gammaln=w.fn("gammaln"))
    if n == "binomial_beta":
        return M.binomial_beta_predictive(n=inp["pn"], distribution=b)
    if n == "poisson_gamma":
        return M.poisson_gamma_predictive(distribution=b, n=inp["pn"])
    from .c07 import predict as p
    return p(fam, b, c, M)


def fns_of(fam, pred):
    n = fam.name
    s = {"pareto_gamma": {"ln"}, "uniform_pareto": {"max_fn"}, "von_mises_known_concentration": {"sin", "cos", "arctan2"}}.get(n, set())
    s = set(s)
    if pred and fam.density_only:
        s |= ({"cos", "ln", "i0"} if n == "von_mises_known_concentration" else {"ln", "i0"} if n == "von_mises_known_direction"
              else {"ln", "gammaln"})
    return s


def run_pipeline(plan, fam, inp, cls, flags, w):
    """All calls of the pipeline on the given inputs (numbers or promises). -> list of results"""
    D, M = lib()
    prior = cls(**{k[2:]: v for k, v in inp.items() if k.startswith("p.")})
    consts = {k[2:]: v for k, v in inp.items() if k.startswith("c.")}
    consts.update(flags)
    out = []
    b = prior
    for j in range(plan["nb"]):
        vals = {k.split(".", 1)[1]: v for k, v in inp.items() if k.startswith(f"b{j}.")}
        b = call(fam, M, b, vals, consts, w)
        out.append(b)
    if plan["pred"] and fam.name not in NO_PRED:
        out.append(predict(fam, M, b, consts, inp, w))
    return out


def run_scale(plan, inp, w):
    D, M = lib()
    cls = getattr(D, plan["cls"])
    d = cls(**{k[2:]: v for k, v in inp.items() if k.startswith("f.")})
    out = [d]
    for j, (how, _) in enumerate(plan["steps"]):
        k = inp[f"k{j}"]
        if how == "add":
            other = D.Poisson(k)
            d = d + other if j % 2 else other + d
        elif how == "l":
            d = d * k
        else:
            d = k * d
        out.append(d)
    return out


def run_construct(plan, inp, w):
    D, M = lib()
    a = [inp[f"a{j}"] for j in range(len(plan["envs"][0]["a"]))]
    n = plan["which"]
    if n == "class":
        return [getattr(D, plan["spec"]["cls"])(**dict(zip(plan["spec"]["fields"], a)))]
    if n == "NormalInverseGamma.from_inverse_gamma":
        return [D.NormalInverseGamma.from_inverse_gamma(mu=a[0], inverse_gamma=D.InverseGamma(alpha=a[1], beta=a[2]), nu=a[3])]
    if n == "ScaledInverseChiSquared.from_inverse_gamma":
        return [D.ScaledInverseChiSquared.from_inverse_gamma(D.InverseGamma(alpha=a[0], beta=a[1]))]
    if n == "to_inverse_gamma":
        return [D.ScaledInverseChiSquared(nu=a[0], sigma2=a[1]).to_inverse_gamma()]
    if n == "inverse_gamma":
        return [D.NormalInverseGamma(mu=a[0], alpha=a[1], beta=a[2], nu=a[3]).inverse_gamma]
    if n == "gamma":
        return [D.NormalGamma(mu=a[0], lam=a[1], alpha=a[2], beta=a[3]).gamma]
    c, m = n.split(".")
    return [getattr(getattr(D, c), m)(*a)]


# ---------------------------------------------------------------- comparing
def fields(r):
    return X.fields_of(r) if X.is_dist(r) else {"value": r}


def same(a, b):
    if a is None or isinstance(a, (bool, str)):
        return a is b or a == b
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    try:
        a, b = np.broadcast_arrays(a, b)
    except ValueError:
        return False
    return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-10 * (np.abs(a) + np.abs(b)) + 1e-13)))


def cast(v, num):
    if isinstance(v, (list, np.ndarray)):
        a = np.array(v)
        return a if a.dtype.kind == "f" or num == "int" else a.astype(float)
    if num == "np":
        return np.float64(v)
    if num == "int" and float(v) == int(v):
        return int(v)
    return float(v)


def inputs_of(plan, e):
    env = plan["envs"][e]
    if plan["mode"] == "pipeline":
        kind = "f64" if plan["column"] else "float"
        inp, cls, flags = named_inputs(F.BY_NAME[plan["fam"]], env, kind)
        return {k: cast(v, plan["num"]) for k, v in inp.items()}, (cls, flags)
    if plan["mode"] == "scale":
        inp = {"f." + k: cast(v, plan["num"]) for k, v in env["fields"].items()}
        inp.update({f"k{j}": cast(v, plan["num"]) for j, v in enumerate(env["k"])})
        return inp, None
    return {f"a{j}": cast(v, plan["num"]) for j, v in enumerate(env["a"])}, None


def execute(plan, ctx):
    with np.errstate(all="ignore"):
        return array_fn(plan, ctx) if plan["mode"] == "array-fn" else late(plan, ctx)


def late(plan, ctx):
    import random
    rng = random.Random(plan["resolve"])
    mode = plan["mode"]
    ctx.hit(mode)
    if plan["style"] == "sql":
        ctx.hit("sql")
    if plan["column"]:
        ctx.hit("column")
    fam = F.BY_NAME[plan["fam"]] if mode == "pipeline" else None
    inputs = []
    for e in range(len(plan["envs"])):
        inputs.append(inputs_of(plan, e))
    names = sorted(inputs[0][0])
    lazy = [n for j, n in enumerate(names) if plan.get("all") or (plan["mask"] >> (j % 24)) & 1]
    if not lazy:
        lazy = names[:1]
    w = World(plan["style"], plan["distort"])

    def run(inp, w):
        if mode == "pipeline":
            return run_pipeline(plan, fam, inp, inputs[0][1][0], inputs[0][1][1], w)
        return run_scale(plan, inp, w) if mode == "scale" else run_construct(plan, inp, w)

    what = plan.get("fam") or plan.get("cls") or (plan["which"] if plan["which"] != "class" else plan["spec"]["cls"])
    mixed = {n: (w.leaf(n) if n in lazy else inputs[0][0][n]) for n in names}
    # a build that is cut short, then done again
    if plan["fail"] is not None:
        w.fail_at = plan["fail"]
        try:
            run(mixed, w)
        except BuildFault:
            ctx.fault("build-interrupted")
            ctx.hit("failed-build")
        except Looked as e:
            ctx.violate("looked", f"{what}: {e}; unresolved inputs {lazy}")
        w.fail_at = None
    w.used.clear()
    try:
        res = run(mixed, w)
    except Looked as e:
        ctx.violate("looked", f"{what}: {e}; unresolved inputs {lazy}")
    except Exception as e:
        ctx.violate("build-failed", f"{what} with unresolved inputs {lazy} raised {type(e).__name__}: {e}")
    if mode == "pipeline":
        pred = plan["pred"] and fam.name not in NO_PRED
        if pred:
            ctx.hit("loglik" if fam.density_only else "predictive")
        for f in fns_of(fam, pred):
            if not w.used.get(f):
                ctx.violate("function-ignored", f"{what}: the caller's {f} was never used")
            ctx.hit("fn-" + f)
    n_lazy = sum(isinstance(v, Promise) for r in res for v in fields(r).values())
    ctx.log(what, lazy, len(res), n_lazy, w.ops)
    for e in range(len(plan["envs"])):
        # inputs resolve one after the other (in the first round; later they are re-bound one by one)
        order = list(lazy)
        rng.shuffle(order)
        if e:
            ctx.hit("rebound")
        for k, n in enumerate(order):
            if e == 0 and rng.random() < 0.4:
                try:
                    for r in res:
                        for v in fields(r).values():
                            w.evaluate(v)
                except Unresolved:
                    ctx.fault("too-early")
                    ctx.hit("late-lookup")
                except Exception as ex:
                    ctx.violate("evaluate", f"{what}: evaluating raised {type(ex).__name__}: {ex}")
            w.env[n] = inputs[e][0][n]
        eager_in = {n: (inputs[e][0][n] if n in lazy else inputs[0][0][n]) for n in names}
        we = World("strict", plan["distort"])
        try:
            eager = run(eager_in, we)
        except (ZeroDivisionError, OverflowError):
            ctx.log("eager numbers overflow")
            continue
        for rep in range(rng.choice([1, 2])):
            todo = [(k, f) for k in range(len(res)) for f in fields(res[k])]
            rng.shuffle(todo)
            for k, f in todo:
                a, b = fields(res[k])[f], fields(eager[k])[f]
                if type(res[k]) is not type(eager[k]) and not (f == "value"):
                    ctx.violate("differs", f"{what}: result {k} is a {type(res[k]).__name__}, with eager numbers a {type(eager[k]).__name__}")
                try:
                    got = w.evaluate(a)
                except (ZeroDivisionError, OverflowError):
                    continue
                except Exception as ex:
                    ctx.violate("evaluate", f"{what}: evaluating {f} raised {type(ex).__name__}: {ex}")
                if isinstance(got, complex):
                    got = complex("nan").real
                    if not isinstance(b, complex):
                        ctx.violate("differs", f"{what}: {f} is complex")
                    continue
                if not same(got, b):
                    ctx.violate("differs", f"{what}: result {k}, {f}: resolved later {np.asarray(got).tolist()!r}, with eager numbers "
                                           f"{np.asarray(b).tolist()!r}; unresolved {lazy}")
        ctx.log(e, [X.sig(v) for r in eager for v in fields(r).values()])
        ctx.nontrivial = True


FN_OF = {"linear_regression": ["inv"], "linear_regression_predictive": ["eye"], "mvn_cov": ["inv"], "mvn_prec": ["inv"],
         "mvn_prec_pred": ["inv"], "mvn": ["outer"], "NormalWishart": ["inv"]}


def array_fn(plan, ctx):
    """Functions on arrays: the caller's is the one used, and gives what numpy's would have given."""
    from .. import ops
    op = plan["op"]
    ctx.hit("array-fn")
    p = ops.prepare(op)
    got = p.run()
    seen = set(p.names)
    for f in FN_OF[op["which"]]:
        if f not in seen:
            ctx.violate("function-ignored", f"{op['which']}: the caller's {f} was never used")
        ctx.hit("fn-" + f)
    # the library's own default must stay out of it: nobody but the caller's function may enter numpy's
    own = {"inv": np.linalg.inv, "outer": np.outer, "eye": np.eye}
    codes = {}
    for f in FN_OF[op["which"]]:
        g = getattr(own[f], "__wrapped__", own[f])
        if hasattr(g, "__code__"):
            codes[g.__code__] = f
    strangers = []

    def watch(frame, event, arg):
        if event == "call" and frame.f_code in codes and in_package(frame.f_back):
            strangers.append(codes[frame.f_code])
    v = ops.prepare(op)
    sys.setprofile(watch)
    try:
        v.run()
    finally:
        sys.setprofile(None)
    if strangers:
        ctx.violate("function-ignored", f"{op['which']}: numpy's {strangers[0]} was used instead of the caller's")
    # again, through numpy's own functions behind a different object
    q = ops.prepare(op)
    again = q.run()
    if X.sig(got) != X.sig(again):
        ctx.violate("differs", f"{op['which']}: the same call with the same functions gives another result")
    # the function's result is what counts: an outage of it must stop the call
    r = ops.prepare(op)
    r.fail_at, r.exc = 1, BuildFault("outage")
    try:
        r.run()
        ctx.violate("function-ignored", f"{op['which']}: went on although the caller's {FN_OF[op['which']]} failed")
    except BuildFault:
        ctx.fault("caller-function-outage")
    ctx.log(op["which"], X.sig(got))
    ctx.nontrivial = True


def shrink(plan):
    if plan["fail"] is not None:
        yield dict(plan, fail=None)
    if "envs" in plan:
        for k in range(len(plan["envs"])):
            if len(plan["envs"]) > 1:
                yield dict(plan, envs=plan["envs"][:k] + plan["envs"][k + 1:])
    if plan["mode"] == "pipeline":
        if plan["pred"]:
            yield dict(plan, pred=False)
        if plan["nb"] > 1:
            yield dict(plan, nb=plan["nb"] - 1)
        if plan["all"]:
            yield dict(plan, all=False)
    if "mask" in plan:
        for b in range(24):
            if plan["mask"] >> b & 1 and plan["mask"] != 1 << b:
                yield dict(plan, mask=plan["mask"] & ~(1 << b))
    if plan["mode"] == "scale" and len(plan["steps"]) > 1:
        yield dict(plan, steps=plan["steps"][:-1])


def known_plan(kid):
    raise KeyError(kid)
