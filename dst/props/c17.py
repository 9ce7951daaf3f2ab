"""C17: a process that keeps using the package keeps only what its caller keeps.

A simulated service repeats a *period* of operations (fresh inputs with ever new values, chained beliefs, rejected calls,
calls cut short, threads that come and go, saves and restores) many times.  Nothing the caller dropped may stay alive, and
neither the memory in use nor the belief nor the steps a call takes may grow from period to period.
"""
import array
import gc
import pickle
import sys
import threading
import types
import warnings
import weakref

import numpy as np

from .. import core
from .. import dists as X
from .. import families as F
from .. import ops
from ..threads import Faults
from .c03 import CB_EXCS, EXCS, describe, new_axes

ID = "C17"
RUNS = {"quick": 2600, "thorough": 24000}
CHUNK = 20
BUDGET_S = {"quick": 240, "thorough": 2400}
RULE = ("a service history of at least ten periods in which calls completed and, where the plan says so, were rejected, interrupted, "
        "run in short-lived threads or resumed from a saved belief; distinct by hash of the event log")
REAL = ["conjugate.models, conjugate.distributions, conjugate.slice, conjugate.plot (all public operations)", "numpy, scipy, matplotlib",
        "CPython's allocator and garbage collector"]
STUB = ["arrival of work, instants of interruption, crash/restore of the service, life time of threads and figures"]
ASSUMPTIONS = ["memory is counted in live allocator blocks after a garbage collection; raw data buffers are counted through their owners",
               "growth means growth in every one of many further periods: bounded tables and warm-up are allowed, but objects the "
               "caller passed in or received must be released once dropped"]
PROBES = ["interrupted", "rejected", "chained", "thread", "restored", "plots", "long", "callback-failed", "held"]


def gen(rng, i, tier):
    long = i % 8 == 0
    els = []
    n = 1 if long else rng.choice([1, 1, 2, 3])
    for _ in range(n):
        u = rng.random()
        if long:
            op = gen_update(rng, F.ALL[(i // 8) % len(F.ALL)])
        elif u < 0.12:
            op = ops.gen_callback(rng)
        elif u < 0.18:
            op = ops.gen_number(rng)
        else:
            op = ops.gen_op(rng)
            if op.get("kind") in ("series", "labelled"):
                op["kind"] = "float"      # pandas itself keeps growing (and later shrinking) tables of weak references
        el = {"op": op, "fault": None, "thread": rng.random() < 0.12, "pickle": rng.random() < 0.2}
        el["chain"] = op["op"] == "update" and (long or rng.random() < 0.7)
        if op["op"] == "plot":
            el["pyplot"] = rng.choice(["no", "no", "figure", "current"])
        if rng.random() < 0.35 and not long:
            if op["op"] in ("callback", "number"):
                names = sorted(EXCS)
                el["fault"] = {"kind": "call", "at": rng.choice([1, 1, 2, 3]), "exc": rng.choice(names)}
            elif op["op"] != "rejected":
                opc = rng.random() < 0.4
                at = rng.choice([rng.randint(1, 8), rng.randint(1, 30)]) * (4 if opc else 1)
                el["fault"] = {"kind": "opcode" if opc else "line", "at": at, "exc": rng.choice(sorted(EXCS)), "fresh": rng.random() < 0.4}
        if el["chain"] and el["fault"]:
            el["sometimes"] = True          # every other period, so that the belief moves on
        els.append(el)
    return {"els": els, "periods": rng.choice([400, 1200]) if long else rng.choice([12, 12, 20]), "long": long,
            "hold": rng.random() < 0.3}


def gen_update(rng, fam):
    shape = rng.choice([(), (3,)]) if fam.lanes else ()
    cfg = fam.gen_cfg(rng, shape)
    K = fam.nlanes(cfg)
    batch = []
    for _ in range(1 if fam.single else rng.choice([1, 2, 5])):
        ln = rng.randrange(K)
        batch.append([ln, fam.gen_obs(rng, fam.lane(cfg, "consts", ln))])
    return {"op": "update", "ro": False, "fam": fam.name, "cfg": cfg, "kind": "float", "batch": batch, "squeeze": False}


def scaled(v, f):
    if isinstance(v, float):
        return v * f
    if isinstance(v, list):
        return [scaled(w, f) for w in v]
    if isinstance(v, dict):
        return {k: scaled(w, f) for k, w in v.items()}
    return v


def jitter(op, r):
    """The same operation with new values: parameters shrink by a hair every period."""
    f = 1.0 - 1e-7 * r
    op = dict(op)
    if "spec" in op:
        op["spec"] = dict(op["spec"], fields=scaled(op["spec"]["fields"], f))
    if "cfg" in op:
        op["cfg"] = dict(op["cfg"], prior=scaled(op["cfg"]["prior"], f))
    if isinstance(op.get("x"), float) and op.get("method") != "pmf":
        op["x"] = op["x"] * f
    return op


def refs_of(v, out, depth=0):
    if depth > 6 or v is None or isinstance(v, (str, bytes, int, float, bool, complex, slice, type)):
        return
    if isinstance(v, dict):
        for w in v.values():
            refs_of(w, out, depth + 1)
        return
    if isinstance(v, (list, tuple)):
        for w in v:
            refs_of(w, out, depth + 1)
        return
    try:
        out.append((type(v).__name__, weakref.ref(v)))
    except TypeError:
        return
    if isinstance(v, np.ndarray):
        return
    if hasattr(v, "__dict__"):
        refs_of(dict(vars(v)) if not hasattr(v, "get_figure") else None, out, depth + 3)
        if hasattr(v, "get_figure"):
            refs_of(v.get_figure(), out, 7)


class Service:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.belief = {}
        self.age = {}
        self.refs = []          # (kind of object, weakref, what it was part of)
        self.held = None


def one(sv, k, el, r):
    """One call of the service; returns the number of package events it took and whether it was interrupted."""
    op = jitter(el["op"], r)
    ctx = sv.ctx
    ax = None
    if op["op"] == "plot":
        import matplotlib.pyplot as plt
        ax = new_axes() if el["pyplot"] == "no" else (plt.figure().add_subplot() if el["pyplot"] == "figure" else None)
        ctx.hit("plots")
    elif op.get("which") == "label":
        ax = new_axes()
    p = ops.prepare(op, ax)
    if el["chain"] and k in sv.belief:
        p.owned["prior"] = sv.belief[k]
        ctx.hit("chained")
    mine = []
    refs_of([p.owned, getattr(p, "stream", None), ax], mine)
    if op["op"] in ("callback", "number"):
        mine.append(("caller's function", weakref.ref(p)))
    flt = el["fault"]
    if flt and el.get("sometimes") and r % 2:
        flt = None
    box = []

    def call():
        exc = None
        tr = Faults()
        try:
            if flt and flt["kind"] == "call":
                exc = CB_EXCS[flt["exc"]]("injected by the simulator")
                p.fail_at, p.exc = flt["at"], exc
            elif flt:
                exc = CB_EXCS[flt["exc"]]("injected by the simulator")
                tr = Faults(at=flt["at"], exc=exc, opcodes=flt["kind"] == "opcode", fresh=flt.get("fresh", False))
            with tr:
                res = p.run()
            box.append((res, False, tr.n, None))
        except core.Hang:
            raise
        except BaseException as e:
            if e is not exc:
                box.append((None, False, tr.n, f"{type(e).__name__}: {e}" if exc is None else None))
            else:
                box.append((None, True, tr.n, None))
        finally:
            p.exc = None

    if el["thread"]:
        t = threading.Thread(target=call, daemon=True)
        t.start()
        t.join()
        ctx.hit("thread")
        mine.append(("thread", weakref.ref(t)))
        del t
    else:
        call()
    res, fired, n, err = box.pop()
    if err is not None:
        ctx.violate("raised", f"{describe(op)}: call in period {r} raised {err}")
    if fired:
        ctx.hit("interrupted" if flt["kind"] != "call" else "callback-failed")
        ctx.fault("exception-at-" + flt["kind"] if flt["kind"] != "call" else "failing-caller-function")
    if op["op"] == "rejected":
        ctx.hit("rejected")
        ctx.fault("wrong-family")
    refs_of([res], mine)
    what = describe(op)
    if r < 3:
        ctx.log(what, X.sig(res) if res is not None and op["op"] not in ("plot", "number") and op.get("which") != "label" else "-")
    sv.refs += [(a, b, what) for a, b in mine]
    if el["chain"] and not fired and res is not None:
        if el["pickle"]:
            res = pickle.loads(pickle.dumps(res))
            ctx.hit("restored")
            ctx.fault("crash-restore")
        sv.belief[k] = res
        aged(sv, k, what, n)
    if sv.plan["hold"] and op["op"] != "number":     # (a number of ours holds the whole call)
        sv.held = res
        ctx.hit("held")
    if op["op"] == "plot" and el["pyplot"] != "no":
        import matplotlib.pyplot as plt
        plt.close("all")
    return n, fired


AGES = {5: 11, 8: 148}


def aged(sv, k, what, n):
    """A belief that absorbed many batches is as large, and takes as many steps to update, as one that absorbed few."""
    age, marks = sv.age.get(k, (0, {}))
    age += 1
    if age in AGES or age in AGES.values():
        now = (len(pickle.dumps(sv.belief[k])), n)
        for a, b in AGES.items():
            if b == age:
                sv.ctx.hit(f"age {b}")
                s0, n0 = marks[a]
                if now[0] > s0 + 40:
                    sv.ctx.violate("growth", f"{what}: the belief takes {now[0]} bytes after {b} batches of the same shape, {s0} after {a}")
                if now[1] > 1.5 * n0 + 20:
                    sv.ctx.violate("growth", f"{what}: batch {b} took {now[1]} steps inside the package, batch {a} of the same shape {n0}")
        marks = {**marks, age: now}
    sv.age[k] = (age, marks)
    if age == 150:          # the service starts over before the numbers leave ordinary magnitudes
        del sv.belief[k], sv.age[k]


def period(sv, r):
    steps = []
    for k, el in enumerate(sv.plan["els"]):
        steps.append(one(sv, k, el, r))
    return steps


def memory(plots):
    """Measures that must not grow: objects known to the collector, size of everything the package can reach, and - where
    matplotlib's own text and colour caches are not at work - live allocator blocks."""
    return array.array("q", [len(gc.get_objects()), reachable(), 0 if plots else sys.getallocatedblocks()])


MEASURES = ["tracked objects", "bytes reachable from the package", "live allocator blocks"]


def reachable():
    """Size of what modules, classes and functions of the package hold (not what other packages hold)."""
    seen = set()
    total = 0
    todo = [m for n, m in list(sys.modules.items()) if n == "conjugate" or n.startswith("conjugate.")]
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, type(sys)):
            if o.__name__ == "conjugate" or o.__name__.startswith("conjugate."):
                todo.append(vars(o))
            continue
        if isinstance(o, type) and not str(o.__module__).startswith("conjugate"):
            continue
        if isinstance(o, types.FunctionType):
            if str(o.__globals__.get("__name__")).startswith("conjugate"):
                todo += [o.__dict__, o.__defaults__, o.__kwdefaults__, o.__closure__]
            continue
        total += sys.getsizeof(o, 0)
        todo += gc.get_referents(o)
        if len(seen) > 200_000:
            break
    return total


def sweep(sv, keep):
    """Forget dead references; returns the live ones not reachable through what the caller still holds."""
    gc.collect()
    held = []
    refs_of(list(keep), held)
    ids = {id(w()) for _, w in held}
    sv.refs = list({id(w()): (a, w, what) for a, w, what in sv.refs if w() is not None}.values())
    return [(a, what) for a, w, what in sv.refs if w() is not None and id(w()) not in ids]


def execute(plan, ctx):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        # a service that shows a deprecation once per text, as many do
        warnings.filterwarnings("default", category=DeprecationWarning)
        warnings.showwarning = lambda *a, **k: None
        gc.collect()
        gc.freeze()
        try:
            _execute(plan, ctx)
        finally:
            gc.unfreeze()


def grows(xs, least):
    return all(b - a >= least for a, b in zip(xs, xs[1:]))


def _execute(plan, ctx):
    sv = Service(plan, ctx)
    N = plan["periods"]
    batch = max(1, N // 10)
    mem, works = array.array("q"), array.array("q")
    plots = any(e["op"]["op"] == "plot" or e["op"].get("which") == "label" for e in plan["els"])
    r = 0
    while r < N:
        for _ in range(batch):
            steps = period(sv, r)
            r += 1
            if r >= N:
                break
        live = sweep(sv, list(sv.belief.values()) + [sv.held])
        dists = [x for x in live if x[0] in dist_names()]
        if dists:
            ctx.violate("retained", f"after {r} periods a {dists[0][0]} of an earlier call ({dists[0][1]}) is still alive although the caller "
                        f"dropped it ({len(dists)} such objects)")
        live = None
        mem += memory(plots)
        works += array.array("q", [n for n, f in steps])
        ctx.log(r, [(n, f) for n, f in steps])
    if plan["long"]:
        ctx.hit("long")
    ctx.log("sizes", [len(pickle.dumps(b)) for b in sv.belief.values()])
    # memory, belief and steps must be steady; if they seem to grow, a longer look decides
    names = [describe(e["op"]) for e in plan["els"]]
    if any(growing(mem[q::3]) for q in range(3)) or any(growing(works[k::len(names)]) for k in range(len(names))):
        confirm(sv, plots, ctx, r, names)
    sv.belief.clear()
    sv.held = None
    live = sweep(sv, [])
    if live:
        kinds = sorted({f"{a} ({w})" for a, w in live})
        ctx.violate("retained", f"after everything was dropped, {len(live)} object(s) of {r} periods are still alive: {kinds[:6]}")
    ctx.nontrivial = True


def dist_names():
    D, _ = F.lib()
    return {n for n in dir(D) if isinstance(getattr(D, n), type)}


def growing(xs):
    xs = xs[len(xs) // 2:]
    return grows(xs, 1)


def confirm(sv, plots, ctx, r, names):
    """Many more periods in six parts: a leak grows in every part by as much."""
    sweep(sv, [])
    n = 12 if plots else 50
    mem, works = memory(plots), array.array("q")
    for _ in range(6):
        for _ in range(n):
            steps = period(sv, r)
            r += 1
        sweep(sv, [])
        mem += memory(plots)
        works += array.array("q", [m for m, f in steps])
    ctx.hit("second look")
    for q in range(3):
        xs = mem[q::3]
        if grows(xs, n // 2) and xs[-1] - xs[-2] >= 0.6 * (xs[1] - xs[0]):      # (warm-up of allocator and tables decays, a leak does not)
            by = [b - xs[0] for b in xs] if q < 2 else f"at least {n // 2}"
            ctx.violate("growth", f"{MEASURES[q]} grow without end: {by} more at every {n} periods of {names}")
    for k in range(len(names)):
        xs = works[k::len(names)]
        if grows(xs, n // 2):
            ctx.violate("growth", f"{names[k]}: the same call takes ever more steps: {list(xs)} at every {n} periods")


def shrink(plan):
    els = plan["els"]
    for c in core.list_drops(els):
        if c:
            yield dict(plan, els=c)
    for k, e in enumerate(els):
        for key, v in (("fault", None), ("thread", False), ("pickle", False)):
            if e[key] != v:
                yield dict(plan, els=els[:k] + [dict(e, **{key: v})] + els[k + 1:])
        for o in ops.simplify(e["op"]):
            yield dict(plan, els=els[:k] + [dict(e, op=o)] + els[k + 1:])
    if plan["hold"]:
        yield dict(plan, hold=False)
    if plan["periods"] > 12:
        yield dict(plan, periods=12, long=False)


def known_plan(kid):
    raise KeyError(kid)
