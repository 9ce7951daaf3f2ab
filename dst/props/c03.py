"""C03: sessions of calls in which any call may be cut short at any instant; compared with an unfaulted twin.

The twin is a forked copy of the process that executes the same session without faults.  In the faulted world each
interrupted call must let exactly the injected exception through, leave every live distribution and every caller-owned
object as it was, and give the twin's result when repeated.
"""
import os
import pickle
import warnings

from .. import core
from .. import dists as X
from .. import families as F
from .. import ops
from ..threads import Faults

ID = "C03"
RUNS = {"quick": 7000, "thorough": 60000}
CHUNK = 25
BUDGET_S = {"quick": 240, "thorough": 2400}
RULE = ("a session of calls in which at least one injected exception fired inside a call of the package and the call was "
        "then repeated and compared with the unfaulted twin; distinct by hash of the event log (operations, fault points, results)")
REAL = ["conjugate.models, conjugate.distributions, conjugate.slice, conjugate.plot (all public operations)", "numpy, scipy, matplotlib"]
STUB = ["the instant and kind of each exception (line or bytecode events inside the package, caller-supplied functions, "
        "numbers and containers)"]
ASSUMPTIONS = ["exceptions arrive at line or bytecode boundaries of the package's own frames or in caller-supplied code, not inside "
               "numpy/scipy C code", "a supplied random generator is the one input a call may advance; the caller re-seeds it before repeating"]
PROBES = ["fired-line", "fired-opcode", "fired-callback", "fired-number", "retried", "chained", "unfired"]

EXCS = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "OSError": OSError, "RuntimeError": RuntimeError,
        "FloatingPointError": FloatingPointError, "RecursionError": RecursionError, "ValueError": ValueError}


class Custom(Exception):
    pass


class CustomBase(BaseException):
    pass


EXCS["Custom"] = Custom
EXCS["CustomBase"] = CustomBase
CB_EXCS = dict(EXCS, TypeError=TypeError, KeyError=KeyError, IndexError=IndexError, AttributeError=AttributeError)


def gen(rng, i, tier):
    n = rng.randint(2, 7)
    steps = []
    base = None
    for k in range(n):
        u = rng.random()
        if u < 0.18:
            op = ops.gen_callback(rng)
        elif u < 0.30:
            op = ops.gen_number(rng)
        elif u < 0.55 and base is not None:
            b = steps[base]["op"]
            fam = F.BY_NAME[b["fam"]]
            K = fam.nlanes(b["cfg"])
            batch = []
            for _ in range(1 if fam.single else rng.choice([0, 1, 3])):
                ln = rng.randrange(K)
                batch.append([ln, fam.gen_obs(rng, fam.lane(b["cfg"], "consts", ln))])
            op = dict(b, batch=batch, prior_from=rng.choice([base] + [j for j in range(base, k) if steps[j]["op"].get("prior_from") is not None]))
        else:
            op = ops.gen_op(rng)
            if op["op"] == "update":
                base = k
        fault = None
        if rng.random() < 0.75:
            if op["op"] in ("callback", "number"):
                names = sorted(CB_EXCS)
                if op.get("which") == "container":
                    names = sorted(EXCS)   # a TypeError/IndexError/KeyError of a container means "not indexable by this key"
                fault = {"kind": "call", "at": rng.choice([1, 1, 2, 3, 5]), "exc": rng.choice(names)}
                if op["op"] == "number":
                    fault["exc"] = rng.choice(sorted(EXCS))
            else:
                opc = rng.random() < 0.5
                at = rng.choice([rng.randint(1, 8), rng.randint(1, 25), rng.randint(1, 80)]) * (4 if opc else 1) - (rng.randint(0, 3) if opc else 0)
                fault = {"kind": "opcode" if opc else "line", "at": max(1, at), "exc": rng.choice(sorted(EXCS)), "fresh": rng.random() < 0.4}
        if fault and op["op"] == "rejected" and fault["exc"] == "ValueError":
            fault["exc"] = "OSError"      # the harness itself catches the documented ValueError
        steps.append({"op": op, "fault": fault, "again": rng.random() < 0.25})
    return {"steps": steps}


def new_axes():
    from matplotlib.figure import Figure
    return Figure().add_subplot()


def prep(step, results):
    op = step["op"]
    p = ops.prepare(op, new_axes() if op["op"] == "plot" or op.get("which") == "label" else None)
    j = op.get("prior_from")
    if j is not None and results.get(j) is not None:
        p.owned["prior"] = results[j]
    return p


def session(plan, faulted, ctx=None, twin=None):
    """Run the session; in the faulted world check everything.  Returns result signatures."""
    results, sigs = {}, []
    ledger = []     # (name, object, signature) of everything that exists
    for k, step in enumerate(plan["steps"]):
        p = prep(step, results)
        name = describe(step["op"])
        before = p.snapshot()
        if faulted:
            f = step["fault"]
            attempts = ([f] if f else []) + ([f] if f and step["again"] else []) + [None]
            had, left = attributes(p), set()
            for a, flt in enumerate(attempts):
                fired, err, res = attempt(p, flt)
                if flt and fired:
                    ctx.fault({"line": "exception-at-line", "opcode": "exception-at-bytecode", "call": "failing-caller-function"}[flt["kind"]])
                    ctx.hit("fired-" + (flt["kind"] if flt["kind"] != "call" else step["op"]["op"]))
                    if not (err is not None and err[1]):
                        got = "returned normally" if err is None else f"raised {err[0]}"
                        ctx.violate("exception-lost", f"{name}: injected {flt['exc']} ({flt['kind']} event {flt['at']}) did not reach the caller; the call {got}")
                elif err is not None:
                    ctx.violate("raised", f"{name}: {'repeated ' if a else ''}call raised {err[0]}, the unfaulted twin did not")
                after = p.snapshot()
                if after != before:
                    ch = [q for q in before if before[q] != after[q]]
                    ctx.violate("input-changed", f"{name}: {'interrupted ' if fired else ''}call changed its input(s) {ch}")
                for nm, ob, sg in ledger:
                    if X.sig(ob) != sg:
                        ctx.violate("earlier-object-changed", f"{name}: {'interrupted ' if fired else ''}call changed {nm}")
                ctx.log(k, name, flt and (flt["kind"], flt["at"], flt["exc"]), fired)
                if fired:
                    left |= attributes(p) - had
                if not fired:
                    more = left - attributes(p)
                    if more:
                        ctx.violate("trace-left", f"{name}: interrupted call left {sorted(more)} on its input(s); a completed call does not")
                    if flt:
                        ctx.hit("unfired")
                    if a and not flt:
                        ctx.hit("retried")
                        ctx.nontrivial = True
                    break
                p = refresh(p, step, results)
        else:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                res = p.run()
        s = X.sig(res)
        if faulted:
            if s != twin[k]:
                ctx.violate("trace-left", f"{name}: result differs from the unfaulted twin: {short(res)}")
            ctx.log(k, hash_sig(s))
            if step["op"].get("prior_from") is not None:
                ctx.hit("chained")
        sigs.append(s)
        if step["op"]["op"] == "update":
            results[k] = res
        for q, ob in p.owned.items():
            if not isinstance(ob, slice):
                ledger.append((f"{q} of step {k} ({name})", ob, X.sig(ob)))
        if X.is_dist(res):
            ledger.append((f"the result of step {k} ({name})", res, X.sig(res)))
    return sigs


def attributes(p):
    """Public attributes found on the caller's distributions."""
    return {(q, a) for q, ob in p.owned.items() if X.is_dist(ob)
            for a in vars(ob) if not a.startswith("_")}


def refresh(p, step, results):
    """Before repeating: re-seed the caller's generator, take fresh axes; the inputs stay the same objects."""
    p.fail_at = None
    if p.op.get("rs"):
        p.stream = ops.rng_of(p.op["rs"])
    if getattr(p, "ax", None) is not None:
        p.ax = new_axes()
    if hasattr(p, "calls"):
        p.calls, p.fired = 0, False
    return p


def attempt(p, flt):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        exc = None
        tr = None
        try:
            if flt is None:
                return False, None, p.run()
            exc = CB_EXCS[flt["exc"]]("injected by the simulator")
            if flt["kind"] == "call":
                p.fail_at, p.exc = flt["at"], exc
                res = p.run()
                return p.fired, None, res
            tr = Faults(at=flt["at"], exc=exc, opcodes=flt["kind"] == "opcode", fresh=flt.get("fresh", False))
            with tr:
                res = p.run()
            return tr.fired, None, res
        except core.Hang:
            raise
        except BaseException as e:
            fired = tr.fired if tr else bool(getattr(p, "fired", False))
            return fired, (f"{type(e).__name__}: {str(e)[:200]}", e is exc), None


def describe(op):
    bits = [op["op"], op.get("which"), op.get("fam"), (op.get("spec") or {}).get("cls"), op.get("method")]
    return " ".join(b for b in bits if b)


def hash_sig(s):
    import hashlib
    return hashlib.blake2b(repr(s).encode(), digest_size=6).hexdigest()


def short(r):
    return repr(r)[:300]


def execute(plan, ctx):
    kind, twin = core.in_child(lambda: twin_run(plan), 60).wait()
    if kind == "err":
        raise RuntimeError("twin failed: " + twin)
    if isinstance(twin, str):
        ctx.violate("raised", "unfaulted session: " + twin)
    session(plan, True, ctx, twin)


def twin_run(plan):
    try:
        return session(plan, False)
    except Exception as e:
        w = core.through_package(e)
        if not w:
            raise
        return f"{type(e).__name__}: {e} from {w}"


def shrink(plan):
    st = plan["steps"]
    for keep in core.list_drops(list(range(len(st)))):
        if not keep:
            continue
        idx = {k: j for j, k in enumerate(keep)}
        out = []
        for k in keep:
            s = st[k]
            pf = s["op"].get("prior_from")
            if pf is not None:
                s = dict(s, op=dict(s["op"], prior_from=idx.get(pf)))
            out.append(s)
        yield {"steps": out}
    for k, s in enumerate(st):
        if s["fault"]:
            yield {"steps": st[:k] + [dict(s, fault=None)] + st[k + 1:]}
            if s["again"]:
                yield {"steps": st[:k] + [dict(s, again=False)] + st[k + 1:]}
            if s["fault"].get("fresh"):
                yield {"steps": st[:k] + [dict(s, fault=dict(s["fault"], fresh=False))] + st[k + 1:]}
            for at in (1, s["fault"]["at"] // 2, s["fault"]["at"] - 1):
                if 0 < at < s["fault"]["at"]:
                    yield {"steps": st[:k] + [dict(s, fault=dict(s["fault"], at=at))] + st[k + 1:]}
        for o in ops.simplify(s["op"]):
            yield {"steps": st[:k] + [dict(s, op=o)] + st[k + 1:]}


def known_plan(kid):
    raise KeyError(kid)
