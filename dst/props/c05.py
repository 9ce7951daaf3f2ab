"""C05: seeded samplers among other consumers of randomness; saved and restored generators; one stream per call.

Every run is executed twice: in a forked twin (program order, quiet ambient generator) and here, with the calls of
independent streams re-ordered, a different ambient state, and other consumers drawing from and re-seeding the ambient generators
between and inside the calls.  Each call starts from the generator state it had in the twin.
"""
import copy
import random as pyrandom
import warnings

import numpy as np

from .. import core
from .. import dists as X
from .. import ops
from ..families import lib
from ..threads import Faults

ID = "C05"
RUNS = {"quick": 6000, "thorough": 60000}
CHUNK = 30
BUDGET_S = {"quick": 240, "thorough": 2400}
RULE = ("a session of at least two sampler calls whose draws, generator states and ambient states were compared between two executions "
        "with different ambient randomness and call order; distinct by hash of the event log (operations, draws, noise)")
REAL = ["every sampler of the package (dist.rvs of all families, joint samplers, Dirichlet.plot_pdf)", "numpy and scipy generators"]
STUB = ["ambient randomness: numpy's and Python's global generators are driven by the simulator, also at line events inside the package",
        "the order of calls on different streams, save and restore of generators"]
ASSUMPTIONS = ["numpy 2.0 / scipy 1.14 samplers are deterministic functions of the generator state"]
PROBES = ["form-int", "form-RandomState", "form-Generator", "form-None", "noise-in-call", "restored", "plot", "joint", "equal-rows"]

FORMS = ["int", "npint", "RandomState", "Generator", "None"]
CONT = (set(X.ELEM) - X.DISCRETE) | {"Dirichlet", "MultivariateNormal", "MultivariateStudentT", "InverseWishart", "Wishart",
                                     "NormalInverseGamma", "NormalGamma", "NormalWishart", "NormalInverseWishart"}


def gen_draw(rng):
    u = rng.random()
    if u < 0.12:
        # many Dirichlet beliefs at once
        d, K = rng.randint(2, 4), rng.randint(2, 4)
        row = [X.pos(rng, 0.5, 9) for _ in range(d)]
        rows = [row if rng.random() < 0.6 else [X.pos(rng, 0.5, 9) for _ in range(d)] for _ in range(K)]
        return {"op": "sample", "spec": {"cls": "Dirichlet", "shape": [], "fields": {"alpha": rows}, "d": d}, "size": rng.choice([1, 2, 3])}
    if u < 0.2:
        op = ops.gen_op(rng, "plot")
        while op["spec"]["cls"] != "Dirichlet":
            op = ops.gen_op(rng, "plot")
        return op
    if u < 0.34:
        # the samplers written by the package itself
        cls = rng.choice(sorted(X.HAND_WRITTEN))
        shape = rng.choice([(), (2,), (3,), (2, 3)])
        spec = X.gen_elem(rng, cls, shape)
        if shape and rng.random() < 0.5:
            spec["fields"] = {k: (np.broadcast_to(np.array(v, dtype=float), shape).tolist() if k != "one_start" else v)
                              for k, v in spec["fields"].items()}
        size = rng.choice([None, [2] + list(shape)]) if shape else rng.choice([None, 1, 5, [2, 3]])
        return {"op": "sample", "spec": spec, "size": size}
    return ops.gen_op(rng, rng.choice(["sample", "joint-sample"]))


def gen(rng, i, tier):
    ns = rng.choice([1, 2, 2, 3])
    streams = [[rng.choice(FORMS), rng.choice([0, 1, rng.randrange(2 ** 31)])] for _ in range(ns)]
    steps = []
    for k in range(rng.randint(2, 6)):
        if steps and rng.random() < 0.25:
            op = dict(rng.choice(steps)["op"])
            if rng.random() < 0.4 and op["op"] != "plot":
                op = ops.variant(rng, op) if op["op"] == "joint-sample" else op
        else:
            op = gen_draw(rng)
        op.pop("rs", None)
        steps.append({"op": op, "s": rng.randrange(ns), "restore": rng.random() < 0.15})
    order = list(range(len(steps)))
    rng.shuffle(order)
    return {"streams": streams, "steps": steps, "order": order, "ambient": rng.randrange(2 ** 31),
            "noise": [[rng.randint(1, 30), rng.choice(["np", "np", "seed", "py"]), rng.randrange(1000)] for _ in range(rng.choice([0, 1, 3]))]}


def make_stream(form, seed):
    if form == "int":
        return seed
    if form == "npint":
        return np.int64(seed)
    if form == "RandomState":
        return np.random.RandomState(seed)
    if form == "Generator":
        return np.random.Generator(np.random.PCG64(seed))
    return None


def ambient_sig():
    s = np.random.get_state()
    return (X.arr_sig(s[1]), s[2], s[3], float(s[4]).hex(), hash(pyrandom.getstate()))


def prep(op, stream):
    from matplotlib.figure import Figure
    p = ops.prepare(op, Figure().add_subplot() if op["op"] == "plot" else None)
    p.stream = stream
    return p


def call(op, stream):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if op["op"] == "sample":
            d = X.build(op["spec"]).dist
            size = op["size"]
            kw = {} if size is None else {"size": tuple(size) if isinstance(size, list) else size}
            return d.rvs(random_state=stream, **kw)
        return prep(op, stream).run()


def values(res):
    out = []
    for r in res if isinstance(res, tuple) else (res,):
        if hasattr(r, "lines"):
            out += [np.asarray(l.get_ydata(), dtype=float) for l in r.lines]
        else:
            out.append(np.asarray(r, dtype=float))
    return out


def describe(op):
    from .c03 import describe as d
    return d(op)


def twin(plan):
    """Program order; quiet ambient generators.  Returns per step: start state (pickled generator), result, end state."""
    np.random.seed(12345)
    pyrandom.seed(54321)
    streams = [make_stream(*s) for s in plan["streams"]]
    out = []
    saved = {}
    for k, st in enumerate(plan["steps"]):
        form, seed = plan["streams"][st["s"]]
        g = streams[st["s"]]
        name = describe(st["op"])
        if form in ("RandomState", "Generator"):
            if st["restore"] and st["s"] in saved:
                g = streams[st["s"]] = copy.deepcopy(saved[st["s"]])
            else:
                saved[st["s"]] = copy.deepcopy(g)
        start = copy.deepcopy(g)
        amb = ambient_sig()
        amb_state = np.random.get_state()
        try:
            res = call(st["op"], g)
        except Exception as e:
            w = core.through_package(e)
            if not w and not isinstance(e, (TypeError, AttributeError, ValueError)):
                raise
            return ("violation", "raised", f"{name} ({form}): {type(e).__name__}: {e}")
        s = X.sig(res)
        after = ambient_sig()
        if form != "None":
            if after != amb:
                return ("violation", "ambient-used", f"{name} with random_state={form} advanced or re-seeded the ambient random state")
        else:
            if after[:4] == amb[:4]:
                return ("violation", "ambient-not-used", f"{name} without random_state did not draw from the ambient numpy generator")
            # the ambient generator is the source: same draws as a RandomState in the ambient state
            r = np.random.RandomState()
            r.set_state(amb_state)
            here = np.random.get_state()
            res2 = call(st["op"], r)
            if X.sig(res2) != s or X.sig(r) != ("RandomState", X.arr_sig(here[1]), here[2], here[3], float(here[4]).hex()):
                return ("violation", "ambient-not-source", f"{name} without random_state is not what numpy's global state gives")
        if form in ("RandomState", "Generator"):
            if X.sig(g) == X.sig(start):
                return ("violation", "not-advanced", f"{name}: the supplied {form} was not advanced")
        if form in ("int", "npint"):
            r = np.random.RandomState(seed)
            if X.sig(call(st["op"], r)) != s:
                return ("violation", "int-seed", f"{name}: random_state={seed} (int) does not give the draws of RandomState({seed})")
        cls = st["op"]["spec"]["cls"]
        if cls in CONT and st["op"]["op"] != "plot":
            for v in values(res):
                if duplicates(v, cls):
                    return ("violation", "copies", f"{name} ({form}, size={st['op']['size']}): draws within one call are copies: {v.tolist()}")
            if form in ("RandomState", "Generator"):
                again = call(st["op"], copy.deepcopy(g))
                if any(np.array_equal(a, b) for a, b in zip(values(res), values(again))):
                    return ("violation", "copies", f"{name} ({form}): the next call on the advanced generator repeats the draws")
        out.append((start, s, X.sig(g)))
    return ("ok", out)


def duplicates(v, cls):
    """Two draws of a continuous law being identical has probability zero."""
    if cls in ("InverseWishart", "Wishart"):
        v = v.reshape(-1, v.shape[-1] ** 2) if v.ndim else v
        v = v[:, 0] if v.ndim else v
    if cls in ("NormalWishart", "NormalInverseWishart") and v.ndim == 3:
        v = v[:, 0, 0]
    flat = np.ravel(v)
    return len(np.unique(flat)) < len(flat) and not _degenerate(flat)


def _degenerate(flat):
    """Saturated values (0, 1, underflow) may coincide."""
    u, c = np.unique(flat, return_counts=True)
    dup = u[c > 1]
    return bool(np.all((np.abs(dup) < 1e-12) | (np.abs(dup - 1) < 1e-9) | ~np.isfinite(dup) | (np.abs(dup) > 1e12)))


def execute(plan, ctx):
    kind, val = core.in_child(lambda: twin(plan), 60).wait()
    if kind == "err":
        raise RuntimeError("twin failed: " + val)
    if val[0] == "violation":
        ctx.violate(val[1], val[2])
    want = val[1]
    np.random.seed(plan["ambient"] % 2 ** 32)
    pyrandom.seed(plan["ambient"] + 1)
    for k in plan["order"]:
        st = plan["steps"][k]
        form, seed = plan["streams"][st["s"]]
        name = describe(st["op"])
        start, sig, end = want[k]
        g = start
        if form == "None":
            continue          # judged in the twin
        hits = []

        def on_point(n):
            for at, what, x in plan["noise"]:
                if n == at:
                    hits.append(what)
                    if what == "np":
                        np.random.random(1 + x % 5)
                    elif what == "seed":
                        np.random.seed(x)
                    else:
                        pyrandom.random()

        np.random.random(3)
        tr = Faults(on_point=on_point)
        with tr:
            res = call(st["op"], g)
        if hits:
            ctx.hit("noise-in-call", len(hits))
            ctx.fault("ambient-consumer", len(hits))
        if X.sig(res) != sig:
            ctx.violate("not-pure", f"{name} ({form}): draws depend on something else than the given generator "
                                    f"(noise {hits}, order {plan['order']}): {str(values(res)[0].ravel()[:4])}")
        if X.sig(g) != end:
            ctx.violate("not-pure", f"{name} ({form}): generator left in a different state")
        ctx.log(k, name, form, repr(sig)[:200], hits)
        ctx.hit("form-" + form.replace("npint", "int"))
        if st["restore"]:
            ctx.hit("restored")
            ctx.fault("generator-restored")
        if st["op"]["op"] == "plot":
            ctx.hit("plot")
        if st["op"]["op"] == "joint-sample":
            ctx.hit("joint")
        a = st["op"]["spec"]["fields"].get("alpha")
        if isinstance(a, list) and a and isinstance(a[0], list) and any(a[i] == a[j] for i in range(len(a)) for j in range(i)):
            ctx.hit("equal-rows")
    if any(f == "None" for f, _ in (plan["streams"][st["s"]] for st in plan["steps"])):
        ctx.hit("form-None")
    if plan["order"] != sorted(plan["order"]):
        ctx.fault("calls-reordered")
    ctx.nontrivial = len(plan["steps"]) > 1


def shrink(plan):
    st = plan["steps"]
    for keep in core.list_drops(list(range(len(st)))):
        if keep:
            idx = {k: j for j, k in enumerate(keep)}
            yield dict(plan, steps=[st[k] for k in keep], order=[idx[k] for k in plan["order"] if k in idx])
    if plan["noise"]:
        for n in core.list_drops(plan["noise"]):
            yield dict(plan, noise=n)
    if plan["order"] != sorted(plan["order"]):
        yield dict(plan, order=sorted(plan["order"]))
    for k, s in enumerate(st):
        if s["restore"]:
            yield dict(plan, steps=st[:k] + [dict(s, restore=False)] + st[k + 1:])


def known_plan(kid):
    raise KeyError(kid)
