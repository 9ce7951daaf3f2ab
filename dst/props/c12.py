"""C12: workers scale and add partial distributions along a seeded merge tree.  Operations are cut short and redone, finished work is lost
and redone, or arrives twice (one copy is dropped); partial results travel by pickle or copy.  Every node of the tree is compared with the
law of the sum of the independent copies it stands for, and no operand may change."""
import copy
import math
import pickle
import warnings

import numpy as np

from .. import core
from .. import dists as X
from .. import refdist as R
from ..families import lib
from ..threads import Faults

ID = "C12"
RUNS = {"quick": 20000, "thorough": 240000}
CHUNK = 100
BUDGET_S = {"quick": 240, "thorough": 2400}
RULE = "a run in which at least two operations of a merge tree were compared with the law of the sum; distinct by event log"
REAL = ["conjugate.distributions operators and dist"]
STUB = ["workers, transport (pickle / copy), and the schedule of the merge tree"]
ASSUMPTIONS = ["k is a Python or numpy whole number (an array of whole numbers, one per lane, only on the right: numpy itself takes over "
               "array * distribution)", "parameters agree to 1e-9 relative; densities to 1e-8"]
PROBES = ["scale-left", "scale-right", "add-left", "add-right", "lost", "redone", "interrupted", "duplicate", "transport", "convolution",
          "density", "lanes", "lane-k", "numpy-k", "big-k", "chain", "inplace-operator", "self-add", "interleaved"]
CLS = ["Poisson", "Poisson", "Poisson", "Gamma", "Exponential", "NegativeBinomial", "Normal"]


def gen_k(rng):
    return rng.choice([1, 2, 2, 3, 3, 4, 5, 7, 12]) if rng.random() < 0.93 else rng.choice([100, 1000, 10 ** 6])


def gen(rng, i, tier):
    cls = CLS[i % len(CLS)]
    shape = rng.choice([(), (), (2,), (3,), (2, 2)])
    K = int(np.prod(shape)) if shape else 1
    nb = rng.choice([1, 2, 3]) if cls == "Poisson" else rng.choice([1, 2])
    bases = [X.gen_elem(rng, cls, shape if rng.random() < 0.8 else ()) for _ in range(nb)]
    for b in bases:
        if rng.random() < 0.2:
            b["fields"] = {f: (np.maximum(1, np.round(v)).tolist() if f in ("lam", "alpha", "beta", "n", "sigma") else v)
                           for f, v in b["fields"].items()}
            b["int"] = True
    steps = []
    n = nb
    for _ in range(rng.randint(1, 8 if tier == "quick" else 16)):
        s = {"fault": rng.choice([None] * 6 + ["lost", "interrupted", "interrupted", "duplicate"]),
             "at": rng.randint(1, 6), "via": rng.choice([None, None, None, "pickle", "deepcopy", "copy"])}
        if cls == "Poisson" and rng.random() < 0.55 and n >= 1:
            s.update(op="add", a=rng.randrange(n), b=rng.randrange(n), inplace=rng.random() < 0.15)
        else:
            k = gen_k(rng)
            side = rng.choice(["l", "r"])
            kind = rng.choice(["int", "int", "int", "np.int64", "np.int32", "np.float64"])
            if shape and rng.random() < 0.2:
                k, side, kind = np.array([gen_k(rng) for _ in range(K)]).reshape(shape).tolist(), "r", "array"
            s.update(op="scale", a=rng.randrange(n), k=k, side=side, kind=kind, inplace=side == "r" and rng.random() < 0.15)
        steps.append(s)
        n += 1
    if math.prod(float(np.max(s["k"])) for s in steps if s["op"] == "scale") * 2 ** len(steps) > 1e6:
        for s in steps:
            if s.get("kind") == "np.int32":
                s["kind"] = "np.int64"       # (narrow integers of the caller overflow by themselves)
    return {"cls": cls, "shape": list(shape), "bases": bases, "steps": steps, "x": [round(rng.random(), 4) for _ in range(3)]}


class Law:
    """What a node stands for: how many independent copies of each base (per lane)."""
    def __init__(self, counts):
        self.counts = counts


def expected(cls, bases, counts):
    """Class and parameters of the sum, from the laws of sums of independent variables."""
    f = [{k: np.asarray(v, dtype=float) for k, v in b["fields"].items()} for b in bases]
    if cls == "Poisson":
        return "Poisson", {"lam": sum(c * b["lam"] for c, b in zip(counts, f) if np.any(np.asarray(c) != 0))}
    j = next(j for j, c in enumerate(counts) if np.any(np.asarray(c) != 0))
    k, b = counts[j], f[j]
    if cls == "Gamma":
        return "Gamma", {"alpha": k * b["alpha"], "beta": b["beta"]}
    if cls == "Exponential":
        return "Gamma", {"alpha": k * np.ones_like(b["lam"]) if np.ndim(k) else float(k), "beta": b["lam"]}
    if cls == "NegativeBinomial":
        return "NegativeBinomial", {"n": k * b["n"], "p": b["p"]}
    return "Normal", {"mu": k * b["mu"], "sigma": np.sqrt(k) * b["sigma"]}


class Lost(Exception):
    pass


def execute(plan, ctx):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        run(plan, ctx)


def run(plan, ctx):
    cls, shape = plan["cls"], tuple(plan["shape"])
    bases = plan["bases"]
    nodes = [X.build(b) for b in bases]
    counts = [[1 if j == i else 0 for j in range(len(bases))] for i in range(len(bases))]
    depth = [0] * len(bases)
    if shape:
        ctx.hit("lanes")
    done = 0
    for n, s in enumerate(plan["steps"]):
        if not nodes:
            break
        a = s["a"] % len(nodes)
        if s["op"] == "scale":
            k = s["k"]
            kk = {"int": int, "np.int64": np.int64, "np.int32": np.int32, "np.float64": np.float64, "array": np.array}[s["kind"]](k)
            operands = [a]
            what = f"{type(nodes[a]).__name__} {'*' if s['side'] == 'r' else 'left-multiplied by'} {k}"

            def op():
                d = nodes[a]
                if s["inplace"]:
                    d *= kk
                    return d
                return d * kk if s["side"] == "r" else kk * d
            kc = np.array(k, dtype=float) if isinstance(k, list) else float(k)
            new = [c * kc for c in counts[a]]
            ctx.hit("scale-right" if s["side"] == "r" else "scale-left")
            if s["kind"].startswith("np"):
                ctx.hit("numpy-k")
            if s["kind"] == "array":
                ctx.hit("lane-k")
            elif k > 50:
                ctx.hit("big-k")
            dp = depth[a] + 1
        else:
            b = s["b"] % len(nodes)
            operands = [a, b]
            what = f"node {a} + node {b}"

            def op():
                d, e = nodes[a], nodes[b]
                if s["inplace"]:
                    d += e
                    return d
                return d + e
            new = [c + d for c, d in zip(counts[a], counts[b])]
            ctx.hit("add-left" if a < b else "add-right")
            if a == b:
                ctx.hit("self-add")
            dp = max(depth[a], depth[b]) + 1
        if max(float(np.max(c)) for c in new) > 1e12:
            continue
        if s["inplace"]:
            ctx.hit("inplace-operator")
        before = [X.sig(d) for d in nodes]
        try:
            if s["fault"] == "interrupted":
                tr = Faults(at=s["at"], exc=Lost("worker lost"))
                try:
                    with tr:
                        res = op()
                    del res
                except Lost:
                    ctx.fault("interrupted")
                    ctx.hit("interrupted")
                if [X.sig(d) for d in nodes] != before:
                    ctx.violate("operands", f"step {n}: {what} was cut short and changed an existing distribution")
                ctx.hit("redone")
            elif s["fault"] in ("lost", "duplicate"):
                res = op()
                ctx.fault(s["fault"])
                ctx.hit(s["fault"])
                if s["fault"] == "lost":
                    del res
                    ctx.hit("redone")
                else:
                    spare = res
            res = op()
        except (TypeError, AttributeError, NotImplementedError) as e:
            ctx.violate("refused", f"step {n}: {what} ({cls}) raised {type(e).__name__}: {e}")
        if [X.sig(d) for d in nodes] != before:
            ctx.violate("operands", f"step {n}: {what} changed an existing distribution")
        if any(res is d for d in nodes):
            # an operand handed back is only harmless as long as nobody changes it
            ctx.log("same object")
        if s["fault"] == "duplicate" and X.sig(spare) != X.sig(res):
            ctx.violate("law", f"step {n}: {what} done twice gives {spare} and {res}")
        if s["via"]:
            res = {"pickle": lambda d: pickle.loads(pickle.dumps(d)), "deepcopy": copy.deepcopy, "copy": copy.copy}[s["via"]](res)
            ctx.hit("transport")
        check(ctx, plan, res, new, f"step {n}: {what}", n)
        if [X.sig(d) for d in nodes] != before:
            ctx.violate("operands", f"step {n}: evaluating the result changed an operand")
        ctx.log(n, what, X.sig(res))
        nodes.append(res)
        counts.append(new)
        depth.append(dp)
        done += 1
        if dp > 2:
            ctx.hit("chain")
    # all partial results are still what they were (late effects of later operations)
    for j, d in enumerate(nodes):
        if j >= len(bases):
            check(ctx, plan, d, counts[j], f"node {j}, at the end", j, light=True)
    ctx.hit("interleaved")
    if done >= 2:
        ctx.nontrivial = True


def check(ctx, plan, res, counts, what, n, light=False):
    cls, shape, bases = plan["cls"], tuple(plan["shape"]), plan["bases"]
    name, want = expected(cls, bases, counts)
    if type(res).__name__ != name:
        ctx.violate("law", f"{what}: result is a {type(res).__name__}, the law of the sum is a {name}")
    for f, w in want.items():
        g = np.asarray(getattr(res, f), dtype=float)
        try:
            gb, wb = np.broadcast_arrays(g, np.asarray(w, dtype=float))
        except ValueError:
            ctx.violate("law", f"{what}: {f} has shape {g.shape}, expected {np.shape(w)}")
        if not np.all(np.abs(gb - wb) <= 1e-9 * np.abs(wb) + 1e-12 * (f == "mu")):
            ctx.violate("law", f"{what}: {name}.{f} = {g.tolist()}, the law of the sum of {counts} copies of "
                               f"{[b['fields'] for b in bases]} has {np.asarray(w).tolist()}")
    if light:
        return
    # the density of the result, in one lane, against the reference law
    sh = shape
    lane = (n * 7 + 3) % int(np.prod(sh)) if sh else 0
    one = {f: float(np.broadcast_to(w, sh).flat[lane]) for f, w in want.items()}
    m, v = moments(name, one)
    x = m + (plan["x"][n % 3] * 4 - 2) * math.sqrt(v)
    if name in X.DISCRETE:
        x = float(max(0, round(x)))
    elif name == "Gamma":
        x = max(x, m * 0.05)
    d = res.dist
    got = np.asarray(d.logpmf(x) if name in X.DISCRETE else d.logpdf(x), dtype=float)
    got = float(np.broadcast_to(got, sh).flat[lane])
    ref = float(R.ref_log(name, one, x))
    if not (abs(got - ref) <= 1e-7 * (1 + abs(ref)) + 1e-10 * max(one.values())):
        ctx.violate("law", f"{what}: log density of the result at {x} is {got!r}, of the law of the sum {ref!r}")
    ctx.hit("density")
    # and against an actual convolution of the laws of the copies, when there are few
    cs = [float(np.broadcast_to(c, shape).flat[lane]) if shape else float(np.ravel(c)[0]) for c in counts]
    if sum(cs) <= 5 and cls in ("Poisson", "NegativeBinomial") and x < 60:
        p = np.zeros(64)
        p[0] = 1.0
        for b, c in zip(bases, cs):
            fb = {f: float(np.broadcast_to(np.asarray(v, dtype=float), sh).flat[lane]) for f, v in b["fields"].items()}
            q = np.exp(np.array([float(R.ref_log(cls, fb, float(t))) for t in range(64)]))
            for _ in range(int(c)):
                p = np.convolve(p, q)[:64]
        want_p = p[int(x)]
        if not abs(math.exp(got) - want_p) <= 1e-9 + 1e-8 * want_p:
            ctx.violate("law", f"{what}: probability of {x} is {math.exp(got)!r}, by convolution {want_p!r}")
        ctx.hit("convolution")


def moments(name, p):
    if name == "Poisson":
        return p["lam"], p["lam"]
    if name == "Gamma":
        return p["alpha"] / p["beta"], p["alpha"] / p["beta"] ** 2
    if name == "NegativeBinomial":
        m = p["n"] * (1 - p["p"]) / p["p"]
        return m, m / p["p"]
    return p["mu"], p["sigma"] ** 2


def shrink(plan):
    for k in range(len(plan["steps"]) - 1, 0, -1):
        yield dict(plan, steps=plan["steps"][:k])
    for c in core.list_drops(plan["steps"]):
        if c:
            yield dict(plan, steps=c)
    for k, s in enumerate(plan["steps"]):
        for f in ("fault", "via"):
            if s[f]:
                yield dict(plan, steps=plan["steps"][:k] + [dict(s, **{f: None})] + plan["steps"][k + 1:])


def known_plan(kid):
    raise KeyError(kid)
