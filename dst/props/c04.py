"""C04: concurrent callers under a simulated scheduler, compared bit for bit with each call run alone."""
import warnings

from .. import core
from .. import dists as X
from .. import families as F
from .. import ops
from ..threads import Sim, Deadlock

ID = "C04"
RUNS = {"quick": 8000, "thorough": 50000}
CHUNK = 25
BUDGET_S = {"quick": 240, "thorough": 2400}
RULE = ("a run in which at least one pre-emption happened while a thread was inside the package, with all results compared bit for "
        "bit with the same calls run alone; distinct by hash of the event log (the switch sequence and the results)")
REAL = ["conjugate.* on real Python threads", "numpy, scipy, matplotlib"]
STUB = ["the scheduler: who runs next, at line or bytecode events inside the package, at operation boundaries and at locks created by the package"]
ASSUMPTIONS = ["threads are switched only at line/bytecode events of the package's own frames, between operations, and at simulated locks; "
               "numpy/scipy/matplotlib calls are atomic", "each caller uses its own random generator and its own axes"]
PROBES = ["switch-in-call", "shared-prior", "same-class", "phased"]


def gen(rng, i, tier):
    nt = rng.choice([2, 2, 2, 3, 4])
    theme = rng.random()
    common = rng.random() < 0.35        # everybody works on one and the same belief
    u = rng.random()
    if u < 0.12:
        first = ops.gen_callback(rng)
    elif u < 0.2:
        first = ops.gen_number(rng)
    else:
        first = ops.gen_op(rng, "plot" if u < 0.3 else None)
    threads = []
    for t in range(nt):
        mine = []
        for k in range(rng.randint(1, 3)):
            if t == 0 and k == 0:
                op = first
            elif common and rng.random() < 0.85:
                op = ops.companion(rng, first)
            elif theme < 0.75:
                op = ops.variant(rng, first) if rng.random() < 0.8 else dict(first)
            else:
                op = ops.gen_op(rng)
            mine.append({"op": op, "share": common or rng.random() < 0.3})
        threads.append(mine)
    opcodes = rng.random() < 0.5
    dense = rng.random() < 0.3
    scale = 5 if opcodes else 1
    sched = []
    for _ in range(rng.choice([1, 2, 3, 6, 12]) if not dense else 60):
        gap = rng.choice([1, 2, 3]) if dense else rng.choice([rng.randint(1, 6), rng.randint(1, 25), rng.randint(1, 80)]) * scale
        sched.append([max(1, gap), rng.randrange(nt)])
    places = None
    if rng.random() < 0.6:
        sched = []
        places = {"salt": rng.randrange(2 ** 30), "rate": rng.choice([0.01, 0.03, 0.1, 0.3, 1.0]) / (2 if opcodes and rng.random() < 0.5 else 1),
                  "only": rng.choice([None, 0, rng.randrange(nt)]), "same": rng.random() < 0.3, "keep": None}
    return {"threads": threads, "sched": sched, "opcodes": opcodes, "places": places}


def new_axes():
    from matplotlib.figure import Figure
    return Figure().add_subplot()


def prepare_all(plan):
    shared = {}
    out = []
    for th in plan["threads"]:
        row = []
        for st in th:
            op = st["op"]
            p = ops.prepare(op, new_axes() if op["op"] == "plot" or op.get("which") == "label" else None)
            if st["share"] and op["op"] in ("update", "predict", "density", "index", "sample", "scale", "loglik", "joint-sample", "plot"):
                key = "prior" if "prior" in p.owned else "d"
                tag = (op.get("fam"), repr(op.get("cfg") or op.get("spec")), op.get("kind"))
                if tag in shared:
                    p.owned[key] = shared[tag]
                else:
                    shared[tag] = p.owned[key]
            row.append(p)
        out.append(row)
    return out, len(shared)


def solo(plan):
    """Each thread's calls alone, in program order."""
    ps, _ = prepare_all(plan)
    out = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for row in ps:
            out.append([one(p) for p in row])
    return out


def one(p, phase=lambda: None):
    try:
        return ("ok", X.sig(p.run(phase)))
    except (core.Hang, Deadlock):
        raise
    except Exception as e:
        return ("raised", type(e).__name__, str(e)[:200])


def execute(plan, ctx):
    kind, want = core.in_child(lambda: solo(plan), 60).wait()
    if kind == "err":
        raise RuntimeError("solo run failed: " + want)
    for row, th in zip(want, plan["threads"]):
        for w, st in zip(row, th):
            if w[0] == "raised":
                ctx.violate("raised", f"{describe(st['op'])} run alone raised {w[1]}: {w[2]}")
    ps, nshared = prepare_all(plan)
    if nshared:
        ctx.hit("shared-prior", nshared)
    before = [[p.snapshot() for p in row] for row in ps]
    got = [[] for _ in ps]

    def task(t):
        def body(sim):
            for p in ps[t]:
                got[t].append(one(p, sim.point))
                sim.point()
        return body

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = Sim(ctx, plan["sched"], plan["opcodes"], plan.get("places")).run([task(t) for t in range(len(ps))])
    for tid, e in sim.errors:
        if isinstance(e, Deadlock):
            ctx.violate("deadlock", f"thread {tid}: {e}")
        raise e
    ctx.fault("preemption", sim.switches)
    if sim.switch_in_call:
        ctx.fault("preemption-inside-call", sim.switch_in_call)
        ctx.hit("switch-in-call")
        ctx.nontrivial = True
    ctx.sim_time += 0
    first = plan["threads"][0][0]["op"]
    if sum(1 for th in plan["threads"] for st in th if describe(st["op"]) == describe(first)) > 1:
        ctx.hit("same-class")
    if first["op"] in ("density", "sample", "predict", "plot"):
        ctx.hit("phased")
    for t, row in enumerate(plan["threads"]):
        for k, st in enumerate(row):
            ctx.log(t, k, describe(st["op"]), hash_sig(got[t][k]))
            if got[t][k] != want[t][k]:
                ctx.violate("interference", f"{describe(st['op'])} in thread {t} returned something else than when run alone"
                            + (f": raised {got[t][k][1]}: {got[t][k][2]}" if got[t][k][0] == "raised" else ""))
            if ps[t][k].snapshot() != before[t][k]:
                ctx.violate("input-changed", f"{describe(st['op'])} in thread {t}: its inputs changed")


def describe(op):
    bits = [op["op"], op.get("which"), op.get("fam"), (op.get("spec") or {}).get("cls"), op.get("method")]
    return " ".join(b for b in bits if b)


def hash_sig(s):
    import hashlib
    return hashlib.blake2b(repr(s).encode(), digest_size=6).hexdigest()


def shrink(plan):
    for c in core.list_drops(plan["sched"]):
        yield dict(plan, sched=c)
    th = plan["threads"]
    if len(th) > 2:
        for c in core.list_drops(th):
            if len(c) >= 2:
                yield dict(plan, threads=c)
    for t in range(len(th)):
        for c in core.list_drops(th[t]):
            if c:
                yield dict(plan, threads=th[:t] + [c] + th[t + 1:])
    if plan["opcodes"]:
        yield dict(plan, opcodes=False, sched=[[max(1, g // 5), p] for g, p in plan["sched"]])
    pl = plan.get("places")
    if pl:
        keep = pl["keep"] if pl["keep"] is not None else list(range(1, 129))
        for c in core.list_drops(keep):
            yield dict(plan, places=dict(pl, keep=c))
    for j, (g, p) in enumerate(plan["sched"]):
        for g2 in (1, g // 2, g - 1):
            if 0 < g2 < g:
                yield dict(plan, sched=plan["sched"][:j] + [[g2, p]] + plan["sched"][j + 1:])


def known_plan(kid):
    raise KeyError(kid)
