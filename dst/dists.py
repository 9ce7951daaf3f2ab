"""Random instances of every distribution class, as JSON, with evaluation points; and canonical signatures of results."""
import hashlib
import math

import numpy as np

from .families import lib, pos, loc, spd


def prob(rng):
    v = rng.uniform(0.05, 0.95)
    return v if rng.random() < 0.4 else round(v, 4)


def nat(rng, lo, hi):
    return rng.randint(lo, hi)


# class -> field -> generator of one scalar.  Order is the order of the constructor arguments.
ELEM = {
    "Beta": {"alpha": lambda r: pos(r), "beta": lambda r: pos(r)},
    "Binomial": {"n": lambda r: nat(r, 1, 20), "p": prob},
    "Exponential": {"lam": lambda r: pos(r, 0.2, 6)},
    "Gamma": {"alpha": lambda r: pos(r), "beta": lambda r: pos(r, 0.3, 6)},
    "NegativeBinomial": {"n": lambda r: pos(r), "p": prob},
    "Hypergeometric": {"N": lambda r: nat(r, 12, 30), "k": lambda r: nat(r, 1, 11), "n": lambda r: nat(r, 1, 11)},
    "Poisson": {"lam": lambda r: pos(r, 0.3, 12)},
    "BetaBinomial": {"n": lambda r: nat(r, 1, 20), "alpha": lambda r: pos(r), "beta": lambda r: pos(r)},
    "BetaNegativeBinomial": {"n": lambda r: nat(r, 1, 12), "alpha": lambda r: pos(r, 1.2, 12), "beta": lambda r: pos(r)},
    "Geometric": {"p": prob, "one_start": "bool"},
    "BetaGeometric": {"alpha": lambda r: pos(r, 1.2, 12), "beta": lambda r: pos(r), "one_start": "bool"},
    "Normal": {"mu": loc, "sigma": lambda r: pos(r, 0.3, 5)},
    "Uniform": {"low": lambda r: loc(r, 4), "high": lambda r: 4.5 + pos(r, 0.3, 6)},
    "Pareto": {"x_m": lambda r: pos(r, 0.3, 4), "alpha": lambda r: pos(r)},
    "InverseGamma": {"alpha": lambda r: pos(r), "beta": lambda r: pos(r)},
    "StudentT": {"mu": loc, "sigma": lambda r: pos(r, 0.3, 5), "nu": lambda r: pos(r, 1, 20)},
    "Lomax": {"alpha": lambda r: pos(r), "lam": lambda r: pos(r)},
    "CompoundGamma": {"alpha": lambda r: pos(r), "beta": lambda r: pos(r), "lam": lambda r: pos(r)},
    "VonMises": {"mu": lambda r: round(r.uniform(-3, 3), 4), "kappa": lambda r: pos(r, 0.3, 8)},
    "ScaledInverseChiSquared": {"nu": lambda r: pos(r, 1, 20), "sigma2": lambda r: pos(r, 0.3, 6)},
    "LogNormal": {"mu": lambda r: round(r.uniform(-1, 1.5), 4), "sigma": lambda r: round(r.uniform(0.2, 1.2), 4)},
    "Weibull": {"beta": lambda r: pos(r, 0.5, 4), "theta": lambda r: pos(r, 0.3, 6)},
    # written by a user of the mixins (dst/userdists.py)
    "UserLaplace": {"mu": loc, "b": lambda r: pos(r, 0.3, 5)},
    "UserDiscreteLaplace": {"mu": lambda r: nat(r, -3, 4), "a": lambda r: pos(r, 0.2, 3)},
    "UserArcsine": {"low": lambda r: loc(r, 3), "width": lambda r: pos(r, 0.5, 5)},
}
USER = {"UserLaplace", "UserDiscreteLaplace", "UserArcsine"}
DISCRETE = {"Binomial", "NegativeBinomial", "Hypergeometric", "Poisson", "BetaBinomial", "BetaNegativeBinomial",
            "Geometric", "BetaGeometric", "UserDiscreteLaplace"}
HAND_WRITTEN = {"BetaGeometric", "CompoundGamma"}          # dist is a class of the package, not of scipy
FINITE = {"Beta", "Binomial", "Hypergeometric", "BetaBinomial", "Uniform", "VonMises", "UserArcsine"}
# bounds set by the constructor
AUTO_MAX = {"Beta", "Binomial", "Hypergeometric", "BetaBinomial", "BetaNegativeBinomial", "Uniform", "VonMises", "UserArcsine"}
VECTORS = ["Dirichlet", "Multinomial", "DirichletMultinomial", "MultivariateNormal", "MultivariateStudentT",
           "NormalInverseGamma", "NormalInverseGammaNd", "NormalGamma", "InverseWishart", "Wishart", "NormalWishart",
           "NormalInverseWishart"]
PROPORTIONAL = ["GammaKnownRateProportional", "GammaProportional", "BetaProportional", "VonMisesKnownConcentration",
                "VonMisesKnownDirectionProportional"]


def gen_elem(rng, cls, shape=(), integral=False):
    fields = {}
    K = int(np.prod(shape)) if shape else 1
    for f, g in ELEM[cls].items():
        if g == "bool":
            fields[f] = rng.random() < 0.5
            continue
        if not shape or rng.random() < 0.2:
            v = g(rng)
            fields[f] = math.ceil(v) if integral and cls not in ("VonMises",) and f != "p" else v
        else:
            vals = [g(rng) for _ in range(K)]
            if integral and f != "p":
                vals = [math.ceil(v) for v in vals]
            fields[f] = np.array(vals).reshape(shape).tolist()
    if shape and not any(isinstance(v, list) for v in fields.values()):
        f = next(k for k, g in ELEM[cls].items() if g != "bool")
        fields[f] = np.array([ELEM[cls][f](rng) for _ in range(K)]).reshape(shape).tolist()
    if cls == "Uniform":
        pass
    return {"cls": cls, "shape": list(shape), "fields": fields}


def gen_vector(rng, name, d=None):
    d = d or rng.randint(2, 4)
    f = {}
    cls = name
    if name == "Dirichlet":
        f = {"alpha": [pos(rng, 0.5, 9) for _ in range(d)]}
    elif name == "Multinomial":
        w = [rng.randint(1, 9) for _ in range(d)]
        f = {"n": rng.randint(1, 9), "p": [x / sum(w) for x in w]}
    elif name == "DirichletMultinomial":
        f = {"alpha": [pos(rng, 0.5, 9) for _ in range(d)], "n": rng.randint(1, 6)}
    elif name == "MultivariateNormal":
        f = {"mu": [loc(rng, 3) for _ in range(d)], "cov": spd(rng, d)}
    elif name == "MultivariateStudentT":
        f = {"mu": [loc(rng, 3) for _ in range(d)], "sigma": spd(rng, d), "nu": pos(rng, 2.5, 15)}
    elif name == "NormalInverseGamma":
        f = {"mu": loc(rng, 3), "alpha": pos(rng, 1.2, 9), "beta": pos(rng), "nu": pos(rng, 0.3, 6)}
    elif name == "NormalInverseGammaNd":
        cls = "NormalInverseGamma"
        f = {"mu": [loc(rng, 3) for _ in range(d)], "alpha": pos(rng, 1.2, 9), "beta": pos(rng), "delta_inverse": spd(rng, d)}
    elif name == "NormalGamma":
        f = {"mu": loc(rng, 3), "lam": pos(rng, 0.3, 6), "alpha": pos(rng, 1.2, 9), "beta": pos(rng)}
    elif name == "InverseWishart":
        f = {"nu": d + pos(rng, 1, 9), "psi": spd(rng, d)}
    elif name == "Wishart":
        f = {"nu": d + pos(rng, 1, 9), "V": spd(rng, d)}
    elif name == "NormalWishart":
        f = {"mu": [loc(rng, 3) for _ in range(d)], "lam": pos(rng, 0.3, 6), "W": spd(rng, d), "nu": d + pos(rng, 1, 9)}
    elif name == "NormalInverseWishart":
        f = {"mu": [loc(rng, 3) for _ in range(d)], "kappa": pos(rng, 0.3, 6), "nu": d + pos(rng, 1, 9), "psi": spd(rng, d)}
    else:
        raise KeyError(name)
    return {"cls": cls, "shape": [], "fields": f, "d": d}


def gen_prop(rng, name, shape=()):
    F = {"GammaKnownRateProportional": "abc", "GammaProportional": "pqrs", "BetaProportional": "pqk",
         "VonMisesKnownConcentration": "ab", "VonMisesKnownDirectionProportional": "cr"}[name]
    K = int(np.prod(shape)) if shape else 1
    out = {}
    for f in F:
        vals = [pos(rng, 0.4, 4) for _ in range(K)]
        out[f] = np.array(vals).reshape(shape).tolist() if shape else vals[0]
    return {"cls": name, "shape": list(shape), "fields": out}


def value(v, readonly=False, integral=False):
    if isinstance(v, list):
        a = np.array(v)          # whole numbers stay integers
        if integral and np.all(a == np.round(a)):
            a = a.astype(np.int64)
        if readonly:
            a.flags.writeable = False
        return a
    if integral and isinstance(v, float) and v == int(v):
        return int(v)
    return v


def build(spec, readonly=False):
    D, _ = lib()
    integral = spec.get("int", False)
    kw = {k: value(v, readonly, integral) for k, v in spec["fields"].items()}
    d = getattr(D, spec["cls"])(**kw)
    if spec.get("bounds"):
        d.set_bounds(*spec["bounds"])
    return d


def lane_fields(spec, i):
    """Field values of flat lane i of an elementwise spec."""
    out = {}
    for k, v in spec["fields"].items():
        if isinstance(v, list):
            out[k] = float(np.broadcast_to(np.array(v, dtype=float), spec["shape"]).flat[i])
        else:
            out[k] = v
    return out


def points(rng, spec, n=3):
    """Evaluation points inside (or around) the support."""
    cls = spec["cls"]
    if cls == "UserDiscreteLaplace":
        return [float(rng.randint(-6, 8)) for _ in range(n)]
    if cls in DISCRETE:
        return [float(rng.choice([0, 1, 1, 2, 3, 5, 8])) for _ in range(n)]
    if cls == "Beta":
        return [round(rng.uniform(0.02, 0.98), 4) for _ in range(n)]
    if cls in ("Normal", "StudentT", "UserLaplace", "UserArcsine"):
        return [loc(rng, 8) for _ in range(n)]
    if cls == "VonMises":
        return [round(rng.uniform(-3, 3), 4) for _ in range(n)]
    if cls == "Uniform":
        return [round(rng.uniform(-5, 12), 4) for _ in range(n)]
    if cls == "Pareto":
        return [round(4.0 + rng.uniform(0, 8), 4) for _ in range(n)]
    return [round(rng.uniform(0.05, 8), 4) for _ in range(n)]


def default_bounds(rng, spec):
    cls = spec["cls"]
    if cls == "UserDiscreteLaplace":
        return rng.choice([[-5, 9], [-8, -1], [-2, 14], [0, 20]])
    if cls in DISCRETE:
        lo = rng.choice([0, 0, 1])
        return [lo, lo + rng.choice([5, 12, 20, 30])]
    if cls == "Beta":
        return rng.choice([[0.0, 1.0], [0.1, 0.9]])
    if cls in ("Normal", "StudentT", "UserLaplace", "UserArcsine"):
        return [-12.0, 14.0]
    if cls == "VonMises":
        return [-3.0, 3.0]
    if cls == "Uniform":
        return [-5.0, 12.0]
    if cls == "Pareto":
        return [4.5, 12.0]
    return [0.05, rng.choice([4.0, 9.0])]


# ---------------------------------------------------------------- signatures
def arr_sig(a):
    a = np.asarray(a)
    if a.dtype == object:
        return ("obj", a.shape, repr(a.tolist()))
    return (a.dtype.str, a.shape, hashlib.blake2b(np.ascontiguousarray(a).tobytes(), digest_size=8).hexdigest())


def is_dist(v):
    """A distribution of the package, or a user's one made with its mixins."""
    return type(v).__module__.startswith(("conjugate.distributions", "dst.userdists"))


def fields_of(d):
    import dataclasses
    if dataclasses.is_dataclass(d):
        return {f.name: getattr(d, f.name) for f in dataclasses.fields(d)}
    return dict(vars(d))


def bounds_sig(d):
    """Public view of the plotting bounds."""
    out = []
    for nm in ("min_value", "max_value"):
        if not hasattr(type(d), nm):
            return None
        try:
            out.append(sig(getattr(d, nm)))
        except ValueError:
            out.append("unset")
    return tuple(out)


def sig(v, bounds=True):
    """Canonical, hashable, bit-exact description of a value."""
    if v is None or isinstance(v, (bool, str, bytes)):
        return repr(v)
    if isinstance(v, np.ndarray):
        return arr_sig(v)
    if isinstance(v, np.generic):
        return (v.dtype.str, v.tobytes().hex())
    if isinstance(v, float):
        return v.hex()
    if isinstance(v, int):
        return v
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(sig(x) for x in v)
    if isinstance(v, dict):
        return ("dict",) + tuple((k, sig(x)) for k, x in sorted(v.items()))
    if isinstance(v, np.random.RandomState):
        s = v.get_state()
        return ("RandomState", arr_sig(s[1]), s[2], s[3], float(s[4]).hex())
    if isinstance(v, np.random.Generator):
        return ("Generator", repr(v.bit_generator.state))
    mod = type(v).__module__
    if is_dist(v):
        s = (type(v).__name__,) + tuple((k, sig(x)) for k, x in fields_of(v).items())
        return s + (("bounds", bounds_sig(v)),) if bounds else s
    if mod.startswith("pandas"):
        return ("pandas", arr_sig(np.asarray(v)), repr(list(v.index)))
    if mod.startswith("matplotlib") and hasattr(v, "lines"):
        return ("axes",) + tuple(line_sig(l) for l in v.lines)
    if type(v).__name__ == "Num":
        return ("Num", sig(v.v))
    import fractions
    if isinstance(v, fractions.Fraction):
        return ("Fraction", v.numerator, v.denominator)
    return (type(v).__name__, "opaque")


def line_sig(l):
    x, y = l.get_data()
    return ("line", arr_sig(np.asarray(x, dtype=float)), arr_sig(np.asarray(y, dtype=float)), str(l.get_label()))


def axes_sig(ax):
    return (tuple(line_sig(l) for l in ax.lines), tuple(ax.get_xlim()), tuple(ax.get_ylim()), ax.get_xlabel(), ax.get_ylabel(),
            ax.get_title())
