"""C10: a pool of distributions lives through assignments, in-place edits, bound changes, indexing, evaluations, copies, saves to a
simulated disk (with torn and failed writes), crashes and restores.  A plain record of each object's current parameters and bounds is kept
beside it; every read is compared with an object freshly built from the record."""
import copy
import io
import pickle
import warnings

import numpy as np

from .. import core
from .. import dists as X
from .. import families as F
from ..families import lib, pos, loc

ID = "C10"
RUNS = {"quick": 5000, "thorough": 60000}
CHUNK = 50
BUDGET_S = {"quick": 240, "thorough": 2400}
RULE = ("a run in which an object was observed after at least one change, copy or restore; distinct by hash of the event log")
REAL = ["conjugate.distributions, conjugate.slice, conjugate.plot (bounds, plots), pickle, copy"]
STUB = ["the disk: an in-memory file that fails or tears writes; the crash: all live objects dropped, only saved bytes survive"]
ASSUMPTIONS = ["after an in-place edit the parameters of objects that may share arrays with the edited one (shallow copies, slices) are "
               "read back rather than predicted: whether they share memory is not specified",
               "bounds are predicted from the last explicit setting; defaults set by constructors are read from the object",
               "equality is checked between distributions of scalar parameters"]
PROBES = ["assign", "edit", "bounds", "index", "observe", "copy", "pickle", "deepcopy", "save", "crash", "torn-write", "disk-full", "update",
          "plot", "joint", "loglik", "equality", "scalar-to-array", "class-isolation"]

ALL = sorted(X.ELEM) + X.VECTORS + X.PROPORTIONAL
FAM_OF = {}


def gen_spec(rng, name=None):
    name = name or rng.choice(ALL)
    if name in X.ELEM:
        return X.gen_elem(rng, name, rng.choice([(), (), (2,), (3,), (2, 2)]))
    if name in X.VECTORS:
        return X.gen_vector(rng, name)
    return X.gen_prop(rng, name, rng.choice([(), (3,)]))


def new_value(rng, spec, field):
    """Another valid value of a field (for a vector spec: of the same dimension)."""
    cls = spec["cls"]
    if cls in X.ELEM:
        g = X.ELEM[cls][field]
        if g == "bool":
            return rng.random() < 0.5
        shape = spec["shape"]
        if shape and rng.random() < 0.7:
            return np.array([g(rng) for _ in range(int(np.prod(shape)))]).reshape(shape).tolist()
        return g(rng)
    old = spec["fields"][field]
    if isinstance(old, list):
        a = np.array(old, dtype=float)
        f = round(rng.uniform(0.5, 2.0), 3)
        if cls == "Multinomial" and field == "p":
            return old[::-1]
        return (a * f).tolist() if rng.random() < 0.7 or a.ndim == 2 else a[::-1].tolist()
    if isinstance(old, int):
        return old + rng.randint(1, 3)
    return round(old * rng.uniform(1.0, 2.0) + 0.1, 4)


def gen(rng, i, tier):
    first = gen_spec(rng, ALL[i % len(ALL)])
    specs = [first]
    for _ in range(rng.choice([0, 1, 1, 2])):
        specs.append(gen_spec(rng, first["cls"] if rng.random() < 0.6 and first["cls"] in X.ELEM else None))
    steps = []
    for _ in range(rng.randint(4, 12 if tier == "quick" else 24)):
        k = rng.choice(["assign", "assign", "edit", "edit", "bounds", "index", "observe", "observe", "copy", "copy", "copy", "save", "save",
                        "torn", "crash", "update", "plot"])
        o = rng.randrange(8)
        s = {"op": k, "o": o, "seed": rng.randrange(2 ** 31)}
        if k == "copy":
            s["how"] = rng.choice(["pickle2", "pickle3", "pickle4", "pickle5", "pickle0", "deepcopy", "deepcopy", "copy"])
        elif k == "bounds":
            s["how"] = rng.choice(["set_bounds", "set_bounds", "set_min_value", "set_max_value", "min_value", "max_value"])
            s["v"] = [round(rng.uniform(0, 3), 3), round(rng.uniform(4, 20), 3)]
            if rng.random() < 0.4:
                s["v"] = rng.choice([[0, 1], [-3.5, 0], [0.0, 2.5e7], [-1e9, -1e-9], [1e-12, 1e-9], [-20, 20], [0, 0.0], [7, 7], [5.0, 2.0],
                                     [-0.25, 3], [100, 400], [0.5, 1e12]])
        elif k == "torn":
            s["at"] = round(rng.random(), 3)
            s["how"] = rng.choice(["disk-full", "torn"])
        steps.append(s)
    return {"specs": specs, "steps": steps}


class Full(io.BytesIO):
    """A file on a disk with room for `room` bytes."""
    def __init__(self, room, tear):
        super().__init__()
        self.room, self.tear = room, tear

    def write(self, b):
        left = self.room - self.tell()
        if len(b) > left:
            super().write(bytes(b)[:max(left, 0)])
            if not self.tear:
                raise OSError(28, "No space left on device")
            return len(b)
        return super().write(b)


class Rec:
    """What is known about one object."""
    def __init__(self, spec, fields, bounds, group):
        self.spec, self.fields, self.bounds, self.group = spec, fields, bounds, group

    def clone(self, group=None):
        return Rec(self.spec, copy.deepcopy(self.fields), copy.deepcopy(self.bounds), self.group if group is None else group)


def read_fields(d):
    return {k: copy.deepcopy(v) for k, v in X.fields_of(d).items()}


def fresh(rec):
    D, _ = lib()
    d = getattr(D, rec.spec["cls"])(**copy.deepcopy(rec.fields))
    return d


def attempt(f):
    try:
        return f()
    except Exception as e:
        return ("raised", type(e).__name__)


def points_for(rng, rec):
    cls = rec.spec["cls"]
    x = X.points(rng, {"cls": cls}, 2) if cls in X.ELEM else [pos(rng, 0.4, 4), pos(rng, 0.4, 4)]
    return x


def observe(d, cls, x, seed):
    """Everything that can be asked of a distribution, as a list of (question, answer)."""
    out = []
    scale = {"Poisson", "Gamma", "Exponential", "NegativeBinomial", "Normal"}

    def rs():
        return np.random.RandomState(seed)
    if cls in X.ELEM:
        p = attempt(lambda: d.dist)
        if isinstance(p, tuple):
            return [("dist", p)]
        m = "pmf" if cls in X.DISCRETE else "pdf"
        out.append((m, attempt(lambda: getattr(p, m)(x[0]))))
        out.append((m + "2", attempt(lambda: getattr(d.dist, m)(x[1]))))
        if cls not in X.HAND_WRITTEN:
            if cls != "BetaNegativeBinomial":
                out.append(("cdf", attempt(lambda: d.dist.cdf(x[0]))))
            if seed % 3 == 0 and cls != "BetaNegativeBinomial":
                shape = np.broadcast(*[np.asarray(v) for v in X.fields_of(d).values() if not isinstance(v, bool)] + [np.asarray(0)]).shape
                out.append(("rvs", attempt(lambda: d.dist.rvs(size=(2,) + shape, random_state=rs()))))
            if seed % 5 == 0 and cls not in ("VonMises", "BetaNegativeBinomial"):
                out.append(("mean", attempt(lambda: d.dist.mean())))
        if cls in scale:
            out.append(("scaled", attempt(lambda: X.fields_of(d * 3))))
        if cls == "Poisson":
            out.append(("added", attempt(lambda: X.fields_of(d + d))))
        if cls == "ScaledInverseChiSquared":
            out.append(("to_inverse_gamma", attempt(lambda: X.fields_of(d.to_inverse_gamma()))))
        if cls == "InverseGamma":
            out.append(("chi2", attempt(lambda: X.fields_of(lib()[0].ScaledInverseChiSquared.from_inverse_gamma(d)))))
        out.append(("params", attempt(lambda: dict(d.params))))
    elif cls in ("Dirichlet", "Multinomial", "DirichletMultinomial", "MultivariateNormal", "MultivariateStudentT", "InverseWishart", "Wishart"):
        if cls != "DirichletMultinomial":
            r = attempt(lambda: d.dist.rvs(size=2, random_state=rs()))
            out.append(("rvs", r))
        out.append(("mean", attempt(lambda: d.dist.mean() if cls not in ("MultivariateNormal", "MultivariateStudentT") else d.dist.mean
                                    if cls == "MultivariateNormal" else d.dist.loc)))
        if cls in ("MultivariateNormal", "MultivariateStudentT"):
            out.append(("pdf", attempt(lambda: d.dist.pdf(np.asarray(d.mu) + 0.3))))
            out.append(("component", attempt(lambda: X.fields_of(d[0]))))
            out.append(("components", attempt(lambda: X.fields_of(d[[1, 0]]))))
        if cls in ("InverseWishart", "Wishart"):
            k = np.asarray(X.fields_of(d)["psi" if cls == "InverseWishart" else "V"]).shape[0]
            out.append(("pdf", attempt(lambda: d.dist.pdf(np.eye(k) * 1.3))))
    elif cls in X.PROPORTIONAL:
        f = d.log_likelihood if hasattr(d, "log_likelihood") else d.approx_log_likelihood
        out.append(("loglik", attempt(lambda: f(x[0]) if cls.startswith("VonMises") else f(x[0], x[1]))))
    else:
        out.append(("sample_mean", attempt(lambda: d.sample_mean(size=2, random_state=rs()))))
        out.append(("sample_variance", attempt(lambda: d.sample_variance(size=2, random_state=rs()))))
        for p in ("inverse_gamma", "gamma", "wishart", "inverse_wishart"):
            if hasattr(type(d), p):
                out.append((p, attempt(lambda: X.fields_of(getattr(d, p)))))
    return out


def failed(a):
    return isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str) and a[0] == "raised"


def alike(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys() and all(alike(a[k], b[k]) for k in a)
    if failed(a) or failed(b):
        return failed(a) and failed(b) and a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, (bool, str)) or isinstance(b, (bool, str)):
        return type(a) is type(b) and a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        return X.sig(a) == X.sig(b)
    return bool(np.allclose(a.astype(float), b.astype(float), rtol=1e-11, atol=1e-290, equal_nan=True))


def field_same(a, b):
    """Same value, same type of container."""
    if isinstance(a, np.ndarray) != isinstance(b, np.ndarray):
        return False
    if a is None or isinstance(a, (bool, str)):
        return type(a) is type(b) and a == b
    return np.shape(a) == np.shape(b) and bool(np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True))


def execute(plan, ctx):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        run(plan, ctx)


def run(plan, ctx):
    import random
    pool, recs = [], []
    disk = None              # the last complete save: (bytes, records)
    groups = [0]

    def add(d, rec):
        if len(pool) >= 8:
            pool.pop(0)
            recs.pop(0)
        pool.append(d)
        recs.append(rec)

    def check_static(what):
        for k, (d, r) in enumerate(zip(pool, recs)):
            f = X.fields_of(d)
            for n, v in r.fields.items():
                if not field_same(f[n], v):
                    ctx.violate("parameters", f"after {what}: object {k} ({r.spec['cls']}) has {n} = {np.asarray(f[n]).tolist()!r}, "
                                              f"expected {np.asarray(v).tolist()!r}")
            b = bounds(d)
            if b is not None:
                for n in (0, 1):
                    if r.bounds[n] is not UNKNOWN and not alike(b[n], r.bounds[n]):
                        ctx.violate("bounds", f"after {what}: object {k} ({r.spec['cls']}) has {('min', 'max')[n]}_value {b[n]!r}, "
                                              f"expected {r.bounds[n]!r}")

    def compare(k, rng, what):
        d, r = pool[k], recs[k]
        x, seed = points_for(rng, r), rng.randrange(2 ** 30)
        cls = r.spec["cls"]
        got, want = observe(d, cls, x, seed), observe(fresh(r), cls, x, seed)
        for (q, a), (_, b) in zip(got, want):
            if not alike(a, b):
                ctx.violate("stale", f"after {what}: {cls}.{q} of object {k} is {a!r}, of a distribution with its parameters {r.fields} it "
                                     f"is {b!r} (x={x}, seed={seed})")
        ctx.hit("observe")
        if cls not in X.ELEM and cls not in X.PROPORTIONAL:
            ctx.hit("joint")
        if cls in X.PROPORTIONAL:
            ctx.hit("loglik")
        ctx.log("obs", cls, X.sig([a for _, a in got]))

    def equality(a, b, k, what, same=True):
        if any(isinstance(v, np.ndarray) for v in recs[k].fields.values()):
            return
        if (a == b) is not same or (b == a) is not same or (a != b) is same:
            ctx.violate("equality", f"after {what}: {recs[k].spec['cls']}: == gives {a == b}, expected {same}")
        ctx.hit("equality")

    for spec in plan["specs"]:
        d = X.build(spec)
        groups[0] += 1
        add(d, Rec(spec, read_fields(d), bounds(d), groups[0]))
    check_static("construction")
    for n, s in enumerate(plan["steps"]):
        if not pool:
            break
        rng = random.Random(s["seed"])
        k = s["o"] % len(pool)
        d, r = pool[k], recs[k]
        cls = r.spec["cls"]
        op = s["op"]
        what = f"step {n} ({op} on {k})"
        changed = True
        if op == "assign":
            names = list(r.fields)
            f = rng.choice(names)
            if r.fields[f] is None:
                continue
            v = X.value(new_value(rng, spec_now(r), f))
            if isinstance(v, np.ndarray) and not isinstance(r.fields[f], np.ndarray):
                ctx.hit("scalar-to-array")
            setattr(d, f, v)
            r.fields[f] = copy.deepcopy(v)
            ctx.hit("assign")
        elif op == "edit":
            names = [f for f, v in r.fields.items() if isinstance(v, np.ndarray) and v.size and v.dtype.kind in "fi"]
            if not names:
                continue
            f = rng.choice(names)
            arr = getattr(d, f)
            if not isinstance(arr, np.ndarray):
                ctx.violate("parameters", f"{cls}.{f} is a {type(arr).__name__}")
            if cls in X.ELEM:
                val = X.ELEM[cls][f](rng)
                arr.flat[rng.randrange(arr.size)] = val
            elif arr.ndim == 2:
                arr *= round(rng.uniform(1.1, 1.9), 3)
            elif cls == "Multinomial":
                arr[:] = arr[::-1].copy()
            else:
                arr[rng.randrange(arr.shape[0])] *= round(rng.uniform(1.1, 1.9), 3)
            for j, q in enumerate(recs):
                if q.group == r.group:
                    q.fields = read_fields(pool[j])
            ctx.hit("edit")
        elif op == "bounds":
            if not hasattr(type(d), "set_bounds"):
                continue
            lo, hi = s["v"]
            if s["how"] == "set_bounds":
                out, nb = d.set_bounds(lo, hi), [lo, hi]
            elif s["how"] == "set_min_value":
                out, nb = d.set_min_value(lo), [lo, r.bounds[1]]
            elif s["how"] == "set_max_value":
                out, nb = d.set_max_value(hi), [r.bounds[0], hi]
            elif s["how"] == "min_value":
                d.min_value, out, nb = lo, d, [lo, r.bounds[1]]
            else:
                d.max_value, out, nb = hi, d, [r.bounds[0], hi]
            if out is not d:
                ctx.violate("bounds", f"{s['how']} returned another object")
            r.bounds = nb
            ctx.hit("bounds")
        elif op == "index":
            if cls in X.ELEM and cls != "Multinomial":
                shape = r.spec["shape"]
                arrs = [v for v in r.fields.values() if isinstance(v, np.ndarray)]
                if not arrs or any(a.ndim != 1 or a.shape != arrs[0].shape for a in arrs):
                    continue
                m = arrs[0].shape[0]
                key = rng.choice([0, m - 1, -1, slice(0, 2), slice(None, None, -1), [0, m - 1], np.array([True] + [False] * (m - 1))])
                e = d[key]
                nf = {f: (v[key] if isinstance(v, np.ndarray) else v) for f, v in r.fields.items()}
            elif cls in ("MultivariateNormal", "MultivariateStudentT"):
                m = len(r.fields["mu"])
                key = rng.choice([slice(0, m - 1), [1, 0]])
                e = d[key]
                nf = dict(r.fields)
                nf["mu"] = nf["mu"][key]
                c = "cov" if "cov" in nf else "sigma"
                ids = np.arange(m)[key]
                nf[c] = nf[c][np.ix_(ids, ids)]
                if len(ids) < 2:
                    continue
            else:
                continue
            if type(e).__name__ != cls:
                ctx.violate("index", f"{cls}[{key}] is a {type(e).__name__}")
            for f, v in nf.items():
                if not alike(getattr(e, f), v):
                    ctx.violate("index", f"{cls}[{key}].{f} is {np.asarray(getattr(e, f)).tolist()}, current parameters give "
                                         f"{np.asarray(v).tolist()}")
            spec = dict(r.spec, fields={f: (np.asarray(v).tolist() if isinstance(v, np.ndarray) else v) for f, v in nf.items()},
                        shape=list(next((np.shape(v) for v in nf.values() if isinstance(v, np.ndarray)), ())))
            add(e, Rec(spec, read_fields(e), bounds(e), r.group))
            ctx.hit("index")
            k = len(pool) - 1
        elif op == "observe":
            changed = False
        elif op == "copy":
            how = s["how"]
            if how == "copy":
                e = copy.copy(d)
                g = r.group
                ctx.hit("copy")
            else:
                groups[0] += 1
                g = groups[0]
                e = copy.deepcopy(d) if how == "deepcopy" else pickle.loads(pickle.dumps(d, protocol=int(how[-1])))
                ctx.hit("deepcopy" if how == "deepcopy" else "pickle")
            if type(e) is not type(d) or e is d:
                ctx.violate("copy", f"{how} of a {cls} is {'the same object' if e is d else type(e).__name__}")
            equality(d, e, k, what)
            add(e, r.clone(g))
            k = len(pool) - 1
        elif op == "save":
            disk = (pickle.dumps(pool, protocol=4), [q.clone() for q in recs])
            changed = False
            ctx.hit("save")
        elif op == "torn":
            # the save does not complete; what was durable before stays
            size = len(pickle.dumps(pool, protocol=4))
            out = Full(int(size * s["at"]), s["how"] == "torn")
            try:
                pickle.dump(pool, out, protocol=4)
            except OSError:
                ctx.hit("disk-full")
            else:
                ctx.hit("torn-write")
            ctx.fault(s["how"])
            torn = out.getvalue()[:int(size * s["at"])]
            try:
                pickle.loads(torn)
                if len(torn) < size:
                    ctx.violate("torn", "a torn save was restored without an error")
            except Exception:
                pass
            changed = False
        elif op == "crash":
            ctx.fault("crash")
            ctx.hit("crash")
            if disk is None:
                pool, recs = [], []
                for spec in plan["specs"]:
                    d = X.build(spec)
                    groups[0] += 1
                    pool.append(d)
                    recs.append(Rec(spec, read_fields(d), bounds(d), groups[0]))
            else:
                pool, recs = pickle.loads(disk[0]), [q.clone() for q in disk[1]]
            k = s["o"] % len(pool)
        elif op == "update":
            fam = family_for(rng, cls, r)
            if fam is None:
                continue
            fam, cfg, values, consts = fam
            M = lib()[1]
            got = attempt(lambda: X.fields_of(fam.call(M, d, values, consts)))
            want = attempt(lambda: X.fields_of(fam.call(M, fresh(r), values, consts)))
            if not alike(got, want):
                ctx.violate("stale", f"after {what}: {fam.name} from object {k} gives {got!r}, from its parameters {r.fields} {want!r}")
            ctx.hit("update")
            changed = False
        elif op == "plot":
            if cls not in X.ELEM or any(isinstance(v, np.ndarray) and v.ndim > 1 for v in r.fields.values()):
                continue
            from matplotlib.figure import Figure
            lo, hi = X.default_bounds(rng, {"cls": cls})
            d.set_bounds(lo, hi)
            r.bounds = [lo, hi]
            e = fresh(r)
            e.set_bounds(lo, hi)
            m = "plot_pmf" if cls in X.DISCRETE else "plot_pdf"
            a = attempt(lambda: [l.get_data() for l in getattr(d, m)(ax=Figure().subplots()).lines])
            b = attempt(lambda: [l.get_data() for l in getattr(e, m)(ax=Figure().subplots()).lines])
            if failed(a) or failed(b):
                bad = not alike(a, b)
            else:
                bad = len(a) != len(b) or not all(alike(tuple(p), tuple(q)) for p, q in zip(a, b))
            if bad:
                ctx.violate("stale", f"after {what}: {cls}.{m} draws something else than a distribution with its parameters {r.fields}")
            ctx.hit("plot")
        check_static(what)
        if k < len(pool):
            compare(k, rng, what)
        if len(pool) > 1 and changed:
            compare(rng.randrange(len(pool)), rng, what)
            ctx.hit("class-isolation")
        ctx.log(n, op, k, cls, [X.sig(q.fields) for q in recs])
        ctx.nontrivial = True


UNKNOWN = object()


def bounds(d):
    if not hasattr(type(d), "min_value"):
        return None
    out = []
    for n in ("min_value", "max_value"):
        try:
            out.append(copy.deepcopy(getattr(d, n)))
        except ValueError:
            out.append("unset")
    # the defaults derived from array parameters may be arrays of no particular type
    return [float(v) if isinstance(v, (np.generic, np.ndarray)) and np.ndim(v) == 0 else v for v in out]


def spec_now(r):
    return dict(r.spec, fields={f: (v.tolist() if isinstance(v, np.ndarray) else v) for f, v in r.fields.items()})


def family_for(rng, cls, r):
    """A model accepting this class, with a batch for it (scalar or the lanes' shape)."""
    if not FAM_OF:
        for f in F.ALL:
            if f.lanes:
                cfg = f.gen_cfg(__import__("random").Random(1), ())
                FAM_OF.setdefault(type(f.make_prior(cfg, "float")).__name__, []).append(f)
    fams = FAM_OF.get(cls)
    if not fams or any(v is None for v in r.fields.values()) and cls != "NormalInverseGamma":
        return None
    fam = rng.choice(sorted(fams, key=lambda f: f.name))
    cfg = fam.gen_cfg(rng, ())
    batch = [[0, fam.gen_obs(rng, fam.lane(cfg, "consts", 0))] for _ in range(1 if fam.single else 2)]
    return fam, cfg, fam.stat_values(cfg, fam.batch_stats(cfg, batch), "float"), fam.consts(cfg, "float")


def shrink(plan):
    for c in core.list_drops(plan["steps"]):
        yield dict(plan, steps=c)
    if len(plan["specs"]) > 1:
        for k in range(len(plan["specs"])):
            yield dict(plan, specs=plan["specs"][:k] + plan["specs"][k + 1:])


def known_plan(kid):
    raise KeyError(kid)
