"""Single public operations of the package as plans: generate (JSON), prepare the caller's objects, run.

Used by the checks that care about what a call does besides its result (C03, C04, C10, C13).
"""
import warnings

import numpy as np

from . import dists as X
from . import families as F
from .families import lib, pos, loc, spd

SEEDS = ["int", "RandomState", "Generator"]
KINDS = ["update", "update", "update", "update", "predict", "density", "index", "sample", "joint-sample", "scale", "construct",
         "loglik", "plot", "rejected"]


def rng_of(spec):
    form, seed = spec
    if form == "int":
        return seed
    if form == "RandomState":
        return np.random.RandomState(seed)
    return np.random.Generator(np.random.PCG64(seed))


def gen_op(rng, kind=None, kinds=None):
    kind = kind or rng.choice(kinds or KINDS)
    op = {"op": kind, "ro": rng.random() < 0.25}
    if kind in ("update", "predict", "rejected"):
        names = [f.name for f in F.ALL]
        if kind == "predict":
            from .props.c02 import FAMS
            names = FAMS
        fam = F.BY_NAME[rng.choice(names)]
        shape = ()
        if fam.lanes and rng.random() < 0.6:
            shape = rng.choice([(2,), (3,), (4,), (2, 3), (2,), (3,), (2, 3), (11,)])
        if kind == "predict" and fam.name.endswith("dirichlet"):
            shape = ()
        cfg = fam.gen_cfg(rng, shape)
        K = fam.nlanes(cfg)
        ks = [k for k in fam.kinds(cfg["shape"])]
        if kind == "predict":
            ks = [k for k in ks if k not in ("frac", "series", "labelled")]
        batch = []
        for _ in range(1 if fam.single or kind == "predict" else rng.choice([0, 1, 2, 5, 1, 2, 5, 12, 30])):
            ln = rng.randrange(K)
            batch.append([ln, fam.gen_obs(rng, fam.lane(cfg, "consts", ln))])
        if kind == "predict" and fam.name.endswith("dirichlet"):
            batch = [[0, [1] + [0] * (cfg["d"] - 1)]]
        op.update(fam=fam.name, cfg=cfg, kind=rng.choice(ks), batch=batch, squeeze=rng.random() < 0.3)
        if kind == "rejected":
            op["wrong"] = rng.choice(["none", "other", "int", "class", "missing"])
        return op
    if kind == "density":
        if rng.random() < 0.75:
            cls = rng.choice(sorted(X.ELEM))
            spec = X.gen_elem(rng, cls, rng.choice([(), (), (2,), (3,)]))
            meth = "pmf" if cls in X.DISCRETE else "pdf"
            if cls not in X.HAND_WRITTEN:
                meth = rng.choice([meth, meth, "cdf"] + (["mean", "var"] if cls != "VonMises" else []))   # (slow in scipy)
            op.update(spec=spec, method=meth, x=X.points(rng, spec, 1)[0])
        else:
            name = rng.choice(["Dirichlet", "Multinomial", "DirichletMultinomial", "MultivariateNormal", "MultivariateStudentT",
                               "InverseWishart", "Wishart"])
            spec = X.gen_vector(rng, name)
            d = spec["d"]
            meth = "pdf"
            if name == "Dirichlet":
                w = [rng.randint(1, 9) for _ in range(d)]
                x = [v / sum(w) for v in w]
                x[-1] = 1 - sum(x[:-1])
            elif name in ("Multinomial", "DirichletMultinomial"):
                meth = "pmf"
                x = [0] * d
                for _ in range(spec["fields"]["n"]):
                    x[rng.randrange(d)] += 1
            elif name in ("MultivariateNormal", "MultivariateStudentT"):
                x = [loc(rng, 3) for _ in range(d)]
            else:
                x = spd(rng, d)
            op.update(spec=spec, method=meth, x=x)
        return op
    if kind == "index":
        if rng.random() < 0.75:
            cls = rng.choice(sorted(X.ELEM))
            spec = X.gen_elem(rng, cls, rng.choice([(3,), (5,), (2, 3)]))
            n = spec["shape"][0]
            op.update(spec=spec, key=rng.choice([["int", rng.randrange(n)], ["int", -1], ["slice", 0, 2, None], ["slice", None, None, 2],
                                                 ["list", [0, n - 1]], ["mask", [bool((j * 7 + 1) % 2) for j in range(n)]]]))
            op["spec"]["fields"] = {k: (np.broadcast_to(np.array(v, dtype=float), spec["shape"]).tolist() if isinstance(v, list) else v)
                                    for k, v in spec["fields"].items()}
        else:
            name = rng.choice(["MultivariateNormal", "MultivariateStudentT"])
            spec = X.gen_vector(rng, name)
            d = spec["d"]
            op.update(spec=spec, key=rng.choice([["int", rng.randrange(d)], ["slice", 0, d - 1, None], ["list", [d - 1, 0]]]))
        return op
    if kind == "sample":
        if rng.random() < 0.7:
            cls = rng.choice(sorted(X.ELEM))
            shape = rng.choice([(), (), (2,), (3,)])
            spec = X.gen_elem(rng, cls, shape)
            size = [rng.choice([1, 4])] + list(shape) if shape else rng.choice([1, 4, [2, 3]])
        else:
            spec = X.gen_vector(rng, rng.choice(["Dirichlet", "Multinomial", "DirichletMultinomial", "MultivariateNormal",
                                                 "MultivariateStudentT", "InverseWishart", "Wishart"]))
            if spec["cls"] == "DirichletMultinomial":
                spec = X.gen_vector(rng, "Multinomial")
            size = rng.choice([1, 3])
        op.update(spec=spec, size=size, rs=[rng.choice(SEEDS), rng.randrange(2 ** 31)])
        return op
    if kind == "joint-sample":
        name = rng.choice(["NormalInverseGamma", "NormalInverseGammaNd", "NormalGamma", "NormalWishart", "NormalInverseWishart"])
        spec = X.gen_vector(rng, name)
        meth = rng.choice(["sample_variance", "sample_mean", "sample_mean"] + (["sample_beta"] if "Wishart" not in name else []))
        op.update(spec=spec, method=meth, size=rng.choice([1, 2, 3, 4]), rv=rng.random() < 0.5,
                  rs=[rng.choice(SEEDS), rng.randrange(2 ** 31)])
        return op
    if kind == "scale":
        cls = rng.choice(["Poisson", "Gamma", "Exponential", "NegativeBinomial", "Normal", "Poisson+"])
        shape = rng.choice([(), (2,), (3,)])
        op.update(spec=X.gen_elem(rng, cls.rstrip("+"), shape), k=rng.randint(1, 6), side=rng.choice(["l", "r"]))
        if cls == "Poisson+":
            op["other"] = X.gen_elem(rng, "Poisson", shape)
        return op
    if kind == "construct":
        op["which"] = rng.choice(["Beta.from_mean", "Beta.uninformative", "Beta.from_successes_and_failures", "Dirichlet.uninformative",
                                  "Gamma.from_occurrences_in_intervals", "Normal.uninformative", "Normal.from_mean_and_variance",
                                  "Normal.from_mean_and_precision", "NormalInverseGamma.from_inverse_gamma",
                                  "ScaledInverseChiSquared.from_inverse_gamma", "to_inverse_gamma",
                                  "NormalInverseWishart.from_inverse_wishart", "inverse_gamma", "gamma"])
        op["a"] = [pos(rng), pos(rng), pos(rng)] if rng.random() < 0.5 else [[pos(rng) for _ in range(3)] for _ in range(3)]
        op["mean"] = round(rng.uniform(0.1, 0.9), 4)
        op["n"] = rng.randint(2, 5)
        return op
    if kind == "loglik":
        shape = rng.choice([(), (3,)])
        spec = X.gen_prop(rng, rng.choice(X.PROPORTIONAL), shape)
        op.update(spec=spec, x=[pos(rng, 0.4, 4), pos(rng, 0.4, 4)])
        return op
    if kind == "plot":
        cls = rng.choice(sorted(X.ELEM) + ["Dirichlet"])
        if cls == "Dirichlet":
            spec = X.gen_vector(rng, "Dirichlet")
            meth = "plot_pdf"
        else:
            spec = X.gen_elem(rng, cls, rng.choice([(), (2,), (3,)]))
            meth = "plot_pmf" if cls in X.DISCRETE else "plot_pdf"
            if cls not in X.HAND_WRITTEN and rng.random() < 0.3:
                meth = "plot_cdf"
        spec["bounds"] = [0.0, 1.0] if cls == "Dirichlet" else X.default_bounds(rng, spec)
        K = spec.get("d") if cls == "Dirichlet" else (spec["shape"][0] if spec["shape"] else 1)
        labels = ["none", "str", "list", "callable", "tuple"] if K > 1 else ["none", "str"]
        if cls == "Dirichlet":
            labels = labels + ["short"]
        op.update(spec=spec, method=meth, label=rng.choice(labels), K=K,
                  conditional=cls in X.DISCRETE and rng.random() < 0.3, color=rng.choice(["none", "none", "name", "list"]), rs=["RandomState", rng.randrange(2 ** 31)])
        return op
    raise KeyError(kind)


class Prepared:
    """The caller's objects of one operation.  `owned` are inputs that the call must leave alone."""

    def __init__(self, op, ax=None):
        self.op = op
        self.ax = ax
        self.owned = {}
        self.stream = None
        D, M = lib()
        k = op["op"]
        ro = op.get("ro", False)
        if k in ("update", "predict", "rejected"):
            fam = F.BY_NAME[op["fam"]]
            cfg, kind = op["cfg"], op["kind"]
            self.fam = fam
            prior = fam.make_prior(cfg, kind)
            values = fam.stat_values(cfg, fam.batch_stats(cfg, op["batch"]), kind, op["squeeze"])
            consts = fam.consts(cfg, kind)
            if ro:
                for v in list(vars(prior).values()) + list(values.values()) + list(consts.values()):
                    if isinstance(v, np.ndarray):
                        v.flags.writeable = False
            self.owned = {"prior": prior, "values": values, "consts": consts}
            if k == "predict" and hasattr(fam, "pred_args"):
                self.owned["args"] = {q: np.array(v, dtype=float) if q == "X" else v
                                      for q, v in fam.pred_args(op["batch"][0][1]).items()}
                if ro and "X" in self.owned["args"]:
                    self.owned["args"]["X"].flags.writeable = False
        elif k == "scale":
            self.owned = {"d": X.build(op["spec"], ro)}
            if "other" in op:
                self.owned["other"] = X.build(op["other"], ro)
        elif k == "construct":
            a = [X.value(v, ro) for v in op["a"]]
            self.owned = {"a": a}
        else:
            d = X.build(op["spec"], ro)
            self.owned = {"d": d}
            if "x" in op:
                x = op["x"]
                if k == "density":
                    x = np.array(x, dtype=int if op["method"] == "pmf" and isinstance(x, list) else float) if isinstance(x, list) else x
                self.owned["x"] = x
            if "rs" in op:
                self.stream = rng_of(op["rs"])
            if k == "index":
                t, *a = op["key"]
                key = a[0] if t in ("int", "list") else (slice(*a) if t == "slice" else np.array(a[0]))
                if t == "list":
                    key = list(key)
                self.owned["key"] = key
            if k == "plot":
                K = op["K"]
                self.owned["label"] = {"none": None, "str": "curve", "list": [f"l{i}" for i in range(K)], "callable": None,
                                       "tuple": tuple(f"l{i}" for i in range(K)), "short": [f"l{i}" for i in range(K - 1)]}[op["label"]]
                if op.get("color") == "list" and op["spec"]["cls"] != "Dirichlet":
                    self.owned["color"] = ["red", "blue", "green"]

    def snapshot(self):
        out = {}
        for k, v in self.owned.items():
            out[k] = repr(v) if isinstance(v, slice) else X.sig(v)
        return out

    def run(self, phase=lambda: None):
        """One call (for density: dist and method, with phase() called in between). Returns the result object."""
        op, o = self.op, self.owned
        D, M = lib()
        k = op["op"]
        if k == "update":
            return self.fam.call(M, o["prior"], o["values"], o["consts"])
        if k == "predict":
            fam = self.fam
            ob = op["batch"][0][1]
            p = fam.pred(o["prior"], dict(op["cfg"], _objs=o["consts"]), op["kind"], **o.get("args", {}))
            x = fam.pred_x(ob) if hasattr(fam, "pred_x") else ob
            phase()
            d = p.dist
            phase()
            return [p, d.pmf(x) if hasattr(d, "pmf") else d.pdf(x)]
        if k == "rejected":
            wrong = {"none": None, "int": 3, "class": D.Beta, "missing": None,
                     "other": D.Poisson(2.0)}[op["wrong"]]
            try:
                self.fam.call(M, wrong, o["values"], o["consts"])
            except ValueError as e:
                return ("ValueError", str(e))
            return "accepted"
        if k == "density":
            d = o["d"].dist
            phase()
            m = getattr(d, op["method"])
            return m() if op["method"] in ("mean", "var") else m(o["x"])
        if k == "index":
            return o["d"][o["key"]]
        if k == "sample":
            size = op["size"]
            d = o["d"].dist
            phase()
            return d.rvs(size=tuple(size) if isinstance(size, list) else size, random_state=self.stream)
        if k == "joint-sample":
            kw = {}
            if op["method"] != "sample_variance" and op["rv"]:
                kw["return_variance"] = True
            return getattr(o["d"], op["method"])(size=op["size"], random_state=self.stream, **kw)
        if k == "scale":
            if "other" in o:
                return o["d"] + o["other"] if op["side"] == "l" else o["other"] + o["d"]
            return o["d"] * op["k"] if op["side"] == "l" else op["k"] * o["d"]
        if k == "construct":
            a = o["a"]
            w = op["which"]
            if w == "Beta.from_mean":
                return D.Beta.from_mean(mean=op["mean"], alpha=a[0])
            if w == "Beta.uninformative":
                return D.Beta.uninformative()
            if w == "Beta.from_successes_and_failures":
                return D.Beta.from_successes_and_failures(successes=a[0], failures=a[1])
            if w == "Dirichlet.uninformative":
                return D.Dirichlet.uninformative(op["n"])
            if w == "Gamma.from_occurrences_in_intervals":
                return D.Gamma.from_occurrences_in_intervals(occurrences=a[0], intervals=a[1])
            if w == "Normal.uninformative":
                return D.Normal.uninformative(sigma=a[0])
            if w == "Normal.from_mean_and_variance":
                return D.Normal.from_mean_and_variance(mean=a[0], variance=a[1])
            if w == "Normal.from_mean_and_precision":
                return D.Normal.from_mean_and_precision(mean=a[0], precision=a[1])
            ig = D.InverseGamma(alpha=a[0], beta=a[1])
            if w == "NormalInverseGamma.from_inverse_gamma":
                return D.NormalInverseGamma.from_inverse_gamma(mu=a[2], inverse_gamma=ig, nu=a[0])
            if w == "ScaledInverseChiSquared.from_inverse_gamma":
                return D.ScaledInverseChiSquared.from_inverse_gamma(ig)
            if w == "to_inverse_gamma":
                return D.ScaledInverseChiSquared(nu=a[0], sigma2=a[1]).to_inverse_gamma()
            if w == "NormalInverseWishart.from_inverse_wishart":
                iw = D.InverseWishart(nu=5.0, psi=np.eye(2))
                return D.NormalInverseWishart.from_inverse_wishart(mu=np.zeros(2), kappa=1.0, inverse_wishart=iw)
            if w == "inverse_gamma":
                return D.NormalInverseGamma(mu=a[2], alpha=a[0], beta=a[1], nu=a[2]).inverse_gamma
            return D.NormalGamma(mu=a[2], lam=a[0], alpha=a[0], beta=a[1]).gamma
        if k == "loglik":
            d, x = o["d"], o["x"]
            c = op["spec"]["cls"]
            if c == "VonMisesKnownConcentration":
                return d.log_likelihood(x[0])
            if c == "VonMisesKnownDirectionProportional":
                return d.approx_log_likelihood(x[0])
            return d.approx_log_likelihood(x[0], x[1])
        if k == "plot":
            kw = {"ax": self.ax}
            if op["label"] == "callable":
                kw["label"] = lambda i: f"c{i}"
            elif o["label"] is not None:
                kw["label"] = o["label"]
            if op["conditional"]:
                kw["conditional"] = True
            if "color" in o:
                kw["color"] = o["color"]
            elif op.get("color") == "name":
                kw["color"] = "purple"
            if op["spec"]["cls"] == "Dirichlet":
                kw.update(samples=20, random_state=self.stream)
            if op["spec"].get("bounds"):
                o["d"].set_bounds(*op["spec"]["bounds"])
                phase()
            return getattr(o["d"], op["method"])(**kw)
        raise KeyError(k)


def simplify(op):
    """Smaller versions of one operation (used when minimising)."""
    if op["op"] in ("update",) and len(op["batch"]) > 1:
        from .core import list_drops
        for c in list_drops(op["batch"]):
            if c or not F.BY_NAME[op["fam"]].single:
                yield dict(op, batch=c)
    if op.get("ro"):
        yield dict(op, ro=False)
    if op.get("label") not in (None, "none"):
        yield dict(op, label="none")
    if op.get("color") not in (None, "none"):
        yield dict(op, color="none")


# ---------------------------------------------------------------- operations with caller-supplied functions / numbers
CALLBACKS = ["linear_regression", "linear_regression_predictive", "uniform_pareto", "pareto_gamma", "von_mises_known_concentration",
             "mvn_cov", "mvn_prec", "mvn_prec_pred", "mvn", "GammaProportional", "GammaKnownRateProportional",
             "BetaProportional", "VonMisesKnownConcentration", "VonMisesKnownDirectionProportional", "NormalWishart", "label", "container"]


class Lazy:
    """A column-like container: indexing it may fail."""

    def __init__(self, data, tick):
        self.data, self.tick = data, tick

    def __getitem__(self, key):
        self.tick()
        return self.data[key]

    def __deepcopy__(self, memo):
        return self


class Num:
    """A caller's number type: arithmetic is allowed, and may fail."""
    __array_ufunc__ = None

    def __init__(self, v, tick):
        self.v, self.tick = v, tick

    def _bin(self, o, f):
        self.tick()
        if isinstance(o, Num):
            o = o.v
        elif isinstance(o, np.ndarray):
            return NotImplemented
        return Num(f(self.v, o), self.tick)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a)
    def __pow__(self, o): return self._bin(o, lambda a, b: a ** b)
    def __rpow__(self, o): return self._bin(o, lambda a, b: b ** a)
    def __neg__(self): return self._bin(0, lambda a, b: -a)
    def __deepcopy__(self, memo): return self


NUM_FAMS = ["binomial_beta", "bernoulli_beta", "negative_binomial_beta", "hypergeometric_beta_binomial", "geometric_beta",
            "geometric_beta_zero", "poisson_gamma", "exponential_gamma", "gamma_known_shape", "inverse_gamma_known_rate",
            "normal_known_variance", "normal_known_precision", "normal_known_mean_ig", "normal_known_mean_chi2", "normal_nig",
            "normal_ng", "weibull_inverse_gamma_known_shape", "gamma", "gamma_known_rate", "beta", "von_mises_known_direction"]


def gen_callback(rng):
    which = rng.choice(CALLBACKS)
    op = {"op": "callback", "which": which, "seed": rng.randrange(2 ** 31)}
    fam = {"linear_regression": "linear_regression", "linear_regression_predictive": "linear_regression",
           "uniform_pareto": "uniform_pareto", "pareto_gamma": "pareto_gamma",
           "von_mises_known_concentration": "von_mises_known_concentration", "mvn_cov": "multivariate_normal_known_covariance",
           "mvn_prec": "multivariate_normal_known_precision", "mvn_prec_pred": "multivariate_normal_known_precision",
           "mvn": "multivariate_normal"}.get(which)
    if fam:
        f = F.BY_NAME[fam]
        cfg = f.gen_cfg(rng, rng.choice([(), (3,)]) if f.lanes else ())
        K = f.nlanes(cfg)
        batch = []
        for _ in range(rng.choice([1, 2, 4])):
            ln = rng.randrange(K)
            batch.append([ln, f.gen_obs(rng, f.lane(cfg, "consts", ln))])
        op.update(fam=fam, cfg=cfg, kind="float", batch=batch)
    elif which == "NormalWishart":
        op.update(spec=X.gen_vector(rng, "NormalWishart"), size=rng.choice([1, 3]))
    elif which == "label":
        spec = X.gen_elem(rng, rng.choice(["Normal", "Gamma", "Poisson", "Binomial"]), (3,))
        spec["bounds"] = X.default_bounds(rng, spec)
        op.update(spec=spec)
    elif which == "container":
        op.update(a=[pos(rng) for _ in range(4)], b=[pos(rng) for _ in range(4)], key=rng.randrange(4),
                  cls=rng.choice(["Beta", "Gamma", "Normal", "NegativeBinomial"]))
    else:
        op.update(spec=X.gen_prop(rng, which, rng.choice([(), (3,)])), x=[pos(rng, 0.4, 4), pos(rng, 0.4, 4)])
    return op


class PreparedCallback:
    def __init__(self, op, ax=None):
        self.op, self.ax = op, ax
        self.calls = 0
        self.fail_at = None
        self.exc = None
        self.fired = False
        self.names = []
        w = op["which"]
        if "fam" in op:
            self.fam = F.BY_NAME[op["fam"]]
            cfg = op["cfg"]
            self.owned = {"prior": self.fam.make_prior(cfg, "float"),
                          "values": self.fam.stat_values(cfg, self.fam.batch_stats(cfg, op["batch"]), "float"),
                          "consts": self.fam.consts(cfg, "float")}
        elif w == "container":
            self.owned = {}
            self.a, self.b = Lazy(list(op["a"]), self.tick), Lazy(list(op["b"]), self.tick)
        else:
            self.owned = {"d": X.build(op["spec"])}

    snapshot = Prepared.snapshot

    watch = None

    def tick(self, name="callback"):
        self.calls += 1
        if self.watch is not None and self.calls < 4:
            self.watch()
        self.names.append(name)
        if self.fail_at is not None and self.calls == self.fail_at:
            self.fired = True
            raise self.exc

    def wrap(self, name, f):
        def g(*a, **k):
            self.tick(name)
            return f(*a, **k)
        return g

    def run(self, phase=lambda: None):
        import scipy.special as sp
        D, M = lib()
        op, o, w = self.op, self.owned, self.op["which"]
        inv, ln = self.wrap("inv", np.linalg.inv), self.wrap("ln", np.log)
        if w == "linear_regression":
            return M.linear_regression(prior=o["prior"], inv=inv, **o["values"])
        if w == "linear_regression_predictive":
            return M.linear_regression_predictive(distribution=o["prior"], X=o["values"]["X"], eye=self.wrap("eye", np.eye))
        if w == "uniform_pareto":
            return M.uniform_pareto(prior=o["prior"], max_fn=self.wrap("max_fn", np.maximum), **o["values"])
        if w == "pareto_gamma":
            return M.pareto_gamma(prior=o["prior"], ln=ln, **o["consts"], **o["values"])
        if w == "von_mises_known_concentration":
            return M.von_mises_known_concentration(prior=o["prior"], sin=self.wrap("sin", np.sin), cos=self.wrap("cos", np.cos),
                                                   arctan2=self.wrap("arctan2", np.arctan2), **o["consts"], **o["values"])
        if w == "mvn_cov":
            return M.multivariate_normal_known_covariance(prior=o["prior"], inv=inv, **o["consts"], **o["values"])
        if w == "mvn_prec":
            return M.multivariate_normal_known_precision(prior=o["prior"], inv=inv, **o["consts"], **o["values"])
        if w == "mvn_prec_pred":
            return M.multivariate_normal_known_precision_predictive(distribution=o["prior"], inv=inv, **o["consts"])
        if w == "mvn":
            return M.multivariate_normal(prior=o["prior"], outer=self.wrap("outer", np.outer), **o["values"])
        if w == "NormalWishart":
            return o["d"].sample_variance(size=op["size"], random_state=np.random.RandomState(op["seed"]), inv=inv)
        if w == "label":
            meth = "plot_pmf" if op["spec"]["cls"] in X.DISCRETE else "plot_pdf"
            return getattr(o["d"], meth)(ax=self.ax, label=self.wrap("label", lambda i: f"c{i}"))
        if w == "container":
            cls = getattr(D, op["cls"])
            return cls(self.a, self.b)[op["key"]]
        d, x = o["d"], op["x"]
        gl, i0 = self.wrap("gammaln", sp.gammaln), self.wrap("i0", sp.i0)
        if w == "VonMisesKnownConcentration":
            return d.log_likelihood(x[0], cos=self.wrap("cos", np.cos), ln=ln, i0=i0)
        if w == "VonMisesKnownDirectionProportional":
            return d.approx_log_likelihood(x[0], ln=ln, i0=i0)
        return d.approx_log_likelihood(x[0], x[1], ln=ln, gammaln=gl)


def gen_number(rng):
    fam = F.BY_NAME[rng.choice(NUM_FAMS)]
    cfg = fam.gen_cfg(rng, ())
    n = 1 if fam.single else rng.choice([1, 3])
    batch = [[0, fam.gen_obs(rng, fam.lane(cfg, "consts", 0))] for _ in range(n)]
    return {"op": "number", "fam": fam.name, "cfg": cfg, "kind": "float", "batch": batch,
            "who": rng.choice(["prior", "values", "all"])}


class PreparedNumber(PreparedCallback):
    def __init__(self, op, ax=None):
        self.op = op
        self.calls, self.fail_at, self.exc, self.fired, self.names = 0, None, None, False, []
        fam = self.fam = F.BY_NAME[op["fam"]]
        cfg = op["cfg"]
        prior = fam.make_prior(cfg, "float")
        values = fam.stat_values(cfg, fam.batch_stats(cfg, op["batch"]), "float")
        consts = fam.consts(cfg, "float")
        if op["who"] in ("prior", "all"):
            prior = type(prior)(**{k: Num(v, self.tick) for k, v in X.fields_of(prior).items() if v is not None})
        if op["who"] in ("values", "all"):
            values = {k: Num(v, self.tick) for k, v in values.items()}
        if op["who"] == "all":
            consts = {k: Num(v, self.tick) if not isinstance(v, (bool, str)) else v for k, v in consts.items()}
        self.owned = {"prior": prior, "values": values, "consts": consts}

    def run(self, phase=lambda: None):
        D, M = lib()
        return self.fam.call(M, self.owned["prior"], self.owned["values"], self.owned["consts"])


def prepare(op, ax=None):
    return {"callback": PreparedCallback, "number": PreparedNumber}.get(op["op"], Prepared)(op, ax)


def variant(rng, op):
    """Another operation of the same kind on the same class / family with other values."""
    keep = rng.random() < 0.6
    for _ in range(60):
        if op["op"] == "callback":
            new = gen_callback(rng)
            if new["which"] == op["which"]:
                return new
        elif op["op"] == "number":
            new = gen_number(rng)
            if new["fam"] == op["fam"]:
                return new
        else:
            new = gen_op(rng, op["op"])
            same = (new.get("fam") == op.get("fam") and (new.get("spec") or {}).get("cls") == (op.get("spec") or {}).get("cls")
                    and new.get("which") == op.get("which"))
            if same and op["op"] == "plot" and keep:
                # drawn in the same manner
                if (new["K"] > 1) != (op["K"] > 1):
                    continue
                if op["label"] != "short" or new["spec"]["cls"] == "Dirichlet":
                    new["label"] = op["label"]
                new["color"] = op["color"]
            if same:
                return new
    return new


def companion(rng, op):
    """Another operation on the very same belief or distribution."""
    k = op["op"]
    new = dict(op)
    if k in ("update", "predict"):
        fam = F.BY_NAME[op["fam"]]
        n = len(op["batch"]) if fam.single or k == "predict" else rng.choice([1, 2, 5])
        if not (k == "predict" and fam.name.endswith("dirichlet")):
            new["batch"] = []
            for _ in range(n):
                ln = rng.randrange(fam.nlanes(op["cfg"]))
                new["batch"].append([ln, fam.gen_obs(rng, fam.lane(op["cfg"], "consts", ln))])
        return new
    if k == "scale":
        new.update(k=rng.randint(1, 6), side=rng.choice(["l", "r"]))
        return new
    if k == "loglik":
        new["x"] = [pos(rng, 0.4, 4), pos(rng, 0.4, 4)]
        return new
    if k == "joint-sample":
        wishart = "Wishart" in op["spec"]["cls"]
        new.update(method=rng.choice(["sample_variance", "sample_mean", "sample_mean"] + ([] if wishart else ["sample_beta"])),
                   rv=rng.random() < 0.5, rs=[rng.choice(SEEDS), rng.randrange(2 ** 31)])
        if rng.random() < 0.5:
            new["size"] = rng.choice([1, 2, 3, 4])
        return new
    if k in ("density", "sample", "plot", "index") and op["spec"]["cls"] in X.ELEM:
        spec, cls = op["spec"], op["spec"]["cls"]
        shape = list(spec["shape"])
        kind = rng.choice([k, k, "density", "density" if k == "index" else "sample"])
        if kind == k == "plot":
            new.update(label=rng.choice([op["label"], "none", "str"]), color=rng.choice([op["color"], "none"]),
                       rs=["RandomState", rng.randrange(2 ** 31)])
            return new
        if kind == "index":
            n = shape[0]
            new["key"] = rng.choice([["int", rng.randrange(n)], ["int", -1], ["slice", 0, 2, None], ["list", [0, n - 1]]])
            return new
        new = {"op": kind, "ro": op["ro"], "spec": spec}
        if kind == "density":
            meth = "pmf" if cls in X.DISCRETE else "pdf"
            if cls not in X.HAND_WRITTEN:
                meth = rng.choice([meth, meth, "cdf"])
            new.update(method=meth, x=X.points(rng, spec, 1)[0])
        else:
            new.update(size=[rng.choice([1, 4])] + shape if shape else rng.choice([1, 4, [2, 3]]),
                       rs=[rng.choice(SEEDS), rng.randrange(2 ** 31)])
        return new
    if k in ("sample", "plot") and "rs" in op:
        new["rs"] = [op["rs"][0], rng.randrange(2 ** 31)]
        return new
    return variant(rng, op)
