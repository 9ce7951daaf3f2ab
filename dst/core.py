"""Runner shared by all checks: seeds -> plans -> simulated runs -> evidence, minimised replays.

A *plan* is plain JSON and decides everything that happens in a run.  Executing a plan draws no randomness and
reads no clock.  Runs are executed in forked children of a parent which has imported the library but never called it.
"""
import collections
import hashlib
import json
import os
import pickle
import random
import re
import select
import signal
import struct
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")


def bootstrap():
    """Import the library from REPO's current sources, never from stale bytecode."""
    for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    os.environ.setdefault("HOME", "/root")
    cfg = os.path.join("/tmp", "dst-mpl-%d" % os.getuid())
    os.makedirs(cfg, exist_ok=True)
    os.environ.setdefault("MPLCONFIGDIR", cfg)
    sys.dont_write_bytecode = True
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa
    import matplotlib.projections.polar  # noqa
    import numpy  # noqa
    import scipy.stats  # noqa
    import scipy.special  # noqa
    import packaging.version  # noqa
    import pickle  # noqa
    from . import threads
    sys.path.insert(0, REPO)
    for m in [m for m in sys.modules if m == "conjugate" or m.startswith("conjugate.")]:
        del sys.modules[m]
    old = sys.pycache_prefix
    sys.pycache_prefix = "/nonexistent-dst-pycache"
    with threads.simulated_locks():
        import conjugate
        import conjugate.distributions
        import conjugate.models
        import conjugate.plot
        import conjugate.slice  # noqa
    sys.pycache_prefix = old
    where = os.path.realpath(conjugate.__file__)
    assert where.startswith(os.path.realpath(REPO) + os.sep), where


class StopRun(BaseException):
    """Ends a run after a violation; BaseException so that library code cannot swallow it."""


class Hang(BaseException):
    pass


class Ctx:
    """What one run records."""

    def __init__(self):
        self.h = hashlib.blake2b(digest_size=8)
        self.stats = collections.Counter()
        self.faults = collections.Counter()
        self.sim_time = 0.0
        self.violation = None
        self.known = []
        self.nontrivial = False
        self.log_lines = None

    def log(self, *parts):
        s = "|".join(str(p) for p in parts)
        self.h.update(s.encode())
        self.h.update(b"\n")
        if self.log_lines is not None:
            self.log_lines.append(s)

    def violate(self, cls, detail):
        self.violation = {"cls": cls, "detail": str(detail)[:1500]}
        raise StopRun()

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def hit(self, probe, n=1):
        self.stats[probe] += n


def run_seed(seed, prop, i):
    return int.from_bytes(hashlib.sha256(f"{seed}/{prop}/{i}".encode()).digest()[:8], "big")


def jsonable(plan):
    return json.loads(json.dumps(plan))


def execute(prop, plan, log=False, limit=None):
    """Run one plan; returns a Ctx.  Errors of the harness itself propagate."""
    ctx = Ctx()
    if log:
        ctx.log_lines = []
    limit = limit or getattr(prop, "RUN_LIMIT_S", 90)

    def on_alarm(*a):
        raise Hang()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        prop.execute(plan, ctx)
    except StopRun:
        pass
    except Exception as e:
        # an exception that passed through the package and that the check did not expect is a finding about the package;
        # a result the oracle cannot even read (wrong type, shape, missing attribute) is one too;
        # any other exception is an error of the harness
        if through_package(e):
            ctx.violation = {"cls": "raised", "detail": "unexpected " + "".join(traceback.format_exception_only(e)).strip()
                             + " from " + through_package(e)}
        elif isinstance(e, (TypeError, ValueError, AttributeError, IndexError, KeyError, ArithmeticError)):
            f = traceback.extract_tb(e.__traceback__)[-1]
            ctx.violation = {"cls": "unreadable", "detail": "a result has a form that cannot be compared: "
                             + "".join(traceback.format_exception_only(e)).strip() + f" ({os.path.basename(f.filename)}, {f.name})"}
        else:
            raise
    except Hang:
        ctx.violation = {"cls": "no-progress", "detail": f"run made no progress (usual cost: milliseconds, limit {limit} s)"}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return ctx


def through_package(e):
    """'function (file:line)' of the innermost frame inside the package under test, or None."""
    tb, where = e.__traceback__, None
    base = os.path.join(os.path.realpath(REPO), "conjugate") + os.sep
    while tb is not None:
        f = tb.tb_frame.f_code
        if os.path.realpath(f.co_filename).startswith(base):
            where = f.co_name
        tb = tb.tb_next
    return where


def in_child(fn, timeout=600):
    """Run fn() in a forked child; returns ('ok', value) | ('err', text)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException:
                out = ("err", traceback.format_exc())
            data = pickle.dumps(out)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    return Child(pid, r, time.monotonic() + timeout)


class Child:
    def __init__(self, pid, fd, deadline):
        self.pid, self.fd, self.deadline, self.buf = pid, fd, deadline, []

    def read_ready(self):
        data = os.read(self.fd, 1 << 20)
        if data:
            self.buf.append(data)
            return None
        os.close(self.fd)
        os.waitpid(self.pid, 0)
        try:
            return pickle.loads(b"".join(self.buf))
        except Exception:
            return ("err", "child died without a result")

    def kill(self):
        os.kill(self.pid, signal.SIGKILL)
        os.close(self.fd)
        os.waitpid(self.pid, 0)

    def wait(self):
        while True:
            left = self.deadline - time.monotonic()
            if left <= 0:
                self.kill()
                return ("err", "child exceeded its wall clock limit")
            if select.select([self.fd], [], [], left)[0]:
                res = self.read_ready()
                if res is not None:
                    return res


def run_plans(prop, plans):
    """Execute plans in order in this process; stop at the first violation."""
    for k, p in enumerate(plans):
        ctx = execute(prop, p)
        if ctx.violation:
            return k, ctx.violation
    return None


def trial(prop, plans, timeout=400):
    """Execute a list of plans in a fresh child. -> violation dict or None"""
    kind, val = in_child(lambda: run_plans(prop, plans), timeout).wait()
    if kind == "err":
        raise RuntimeError("harness error while re-running a plan:\n" + val)
    return None if val is None else val[1]


def minimise(prop, plans, cls, budget_s):
    """Greedy delta debugging on the plan list and then on its last plan."""
    end = time.monotonic() + budget_s

    def fails(ps):
        try:
            v = trial(prop, ps)
        except RuntimeError:
            return False
        return v is not None and v["cls"] == cls

    last = plans[-1]
    if len(plans) > 1 and fails([last]):
        plans = [last]
    n = 2
    while len(plans) > 1 and time.monotonic() < end:
        pre = plans[:-1]
        size = max(1, len(pre) // n)
        for s in range(0, len(pre), size):
            cand = pre[:s] + pre[s + size:] + [last]
            if fails(cand):
                plans = cand
                break
        else:
            if size == 1:
                break
            n *= 2
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for cand in prop.shrink(plans[-1]):
            if time.monotonic() > end:
                break
            cand = jsonable(cand)
            if fails(plans[:-1] + [cand]):
                plans = plans[:-1] + [cand]
                progress = True
                break
    return plans


def list_drops(xs):
    """Smaller versions of a list: halves, quarters, ..., single elements removed."""
    n = len(xs)
    size = n
    while size >= 1:
        for s in range(0, n, size):
            yield xs[:s] + xs[s + size:]
        size //= 2


# ---------------------------------------------------------------- known findings
def load_known():
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


KNOWN = load_known()


def save_replay(pid, plans, violation):
    body = {"property": pid, "violation": violation, "plans": plans}
    name = hashlib.sha256(json.dumps(plans, sort_keys=True).encode()).hexdigest()[:12]
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{name}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def check(prop, seed, tier, nproc=None, runs=None):
    """Run one property's search. Returns the exit code."""
    t0 = time.monotonic()
    pid = prop.ID
    nproc = nproc or min(8, os.cpu_count() or 1)
    total = runs or prop.RUNS[tier]
    chunk = getattr(prop, "CHUNK", 25)
    budget = getattr(prop, "BUDGET_S", {}).get(tier, 300 if tier == "quick" else 1800)
    print(f"check {pid} tier={tier} seed={seed} runs={total} workers={nproc}", flush=True)

    def make(i):
        return jsonable(prop.gen(random.Random(run_seed(seed, pid, i)), i, tier))

    def work(lo, hi):
        agg = dict(n=0, digests=[], nontrivial=0, stats=collections.Counter(), faults=collections.Counter(),
                   sim=0.0, known=collections.Counter(), vio=None, samples=[])
        for i in range(lo, hi):
            plan = make(i)
            ctx = execute(prop, plan)
            agg["n"] += 1
            agg["stats"] += ctx.stats
            agg["faults"] += ctx.faults
            agg["sim"] += ctx.sim_time
            for k in ctx.known:
                agg["known"][k] += 1
            if ctx.nontrivial:
                agg["nontrivial"] += 1
                agg["digests"].append(ctx.h.digest())
            if ctx.violation:
                agg["vio"] = (i, ctx.violation)
                break
        return agg

    # listed findings first: show that each still fails in the listed way
    known_lines = []
    for (p, kid), what in KNOWN.items():
        if p != pid:
            continue
        plan = jsonable(prop.known_plan(kid))
        def known_run(plan=plan):
            c = execute(prop, plan)
            return c.violation, c.known

        kind, val = in_child(known_run, 200).wait()
        if kind == "err":
            print(val, file=sys.stderr)
            return 2
        if val[0]:
            # the listed history fails in another way than listed: report it
            path = save_replay(pid, [plan], val[0])
            print(val[0]["cls"], "-", val[0]["detail"])
            print(f"VIOLATION property={pid} replay={os.path.relpath(path, ROOT)}")
            return 1
        if kid in val[1]:
            known_lines.append(f"KNOWN-FINDING: property={pid} {what}")

    tot = dict(n=0, nontrivial=0, sim=0.0)
    stats, faults, known = collections.Counter(), collections.Counter(), collections.Counter()
    digests = set()
    vios = []
    queue = [(s, min(s + chunk, total)) for s in range(0, total, chunk)]
    queue.reverse()
    live = {}
    truncated = False
    while queue or live:
        while queue and len(live) < nproc and not vios:
            if time.monotonic() - t0 > budget:
                truncated = True
                queue.clear()
                break
            lo, hi = queue.pop()
            c = in_child(lambda lo=lo, hi=hi: work(lo, hi), 700)
            live[c.fd] = (c, lo, hi)
        if vios:
            queue.clear()
        if not live:
            break
        ready = select.select(list(live), [], [], 5)[0]
        for fd in ready:
            c, lo, hi = live[fd]
            res = c.read_ready()
            if res is None:
                continue
            del live[fd]
            kind, agg = res
            if kind == "err":
                for c2, _, _ in live.values():
                    c2.kill()
                print(f"HARNESS ERROR in runs {lo}..{hi}:\n{agg}", file=sys.stderr)
                return 2
            tot["n"] += agg["n"]
            tot["nontrivial"] += agg["nontrivial"]
            tot["sim"] += agg["sim"]
            stats += agg["stats"]
            faults += agg["faults"]
            known += agg["known"]
            digests.update(agg["digests"])
            if agg["vio"]:
                vios.append((agg["vio"][0], lo, agg["vio"][1]))
        for fd, (c, lo, hi) in list(live.items()):
            if time.monotonic() > c.deadline:
                for c2, _, _ in live.values():
                    c2.kill()
                print(f"HARNESS ERROR: runs {lo}..{hi} exceeded the wall clock limit", file=sys.stderr)
                return 2

    code = 0
    search_s = time.monotonic() - t0
    if vios:
        i, lo, v = min(vios)
        print(f"violation in run {i} (run seed {run_seed(seed, pid, i)}): {v['cls']} - {v['detail']}", flush=True)
        plans = [make(j) for j in range(lo, i + 1)]
        single = trial(prop, [plans[-1]])
        if single is not None:
            plans, v = [plans[-1]], single
        else:
            again = trial(prop, plans)
            if again is None:
                print("HARNESS ERROR: the violation did not reproduce in a fresh process", file=sys.stderr)
                return 2
            v = again
        if v["cls"] != "no-progress":
            plans = minimise(prop, plans, v["cls"], 60 if tier == "quick" else 240)
            v = trial(prop, plans) or v
        path = save_replay(pid, plans, v)
        code = 1
        print(f"minimised: {v['cls']} - {v['detail']}")
    if truncated:
        print(f"note: stopped after {tot['n']} of {total} runs (wall clock budget {budget} s)")
    wall = time.monotonic() - t0
    # a few written-out cases of this run
    samples = []
    for i in (0, 1, 2):
        s = json.dumps(make(i))
        samples.append(json.loads(s) if len(s) < 4000 else s[:4000] + "...")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["n"],
            "distinct_nontrivial": len(digests),
            "rule": prop.RULE,
            "samples": samples,
            "runs_and_seeds_per_hour": round(tot["n"] / max(search_s, 1e-9) * 3600),
            "simulated_time_s": round(tot["sim"], 3),
            "nontrivial_runs": tot["nontrivial"],
            "faults_fired": dict(sorted(faults.items())),
            "probes": dict(sorted(stats.items())),
            "known_finding_hits": dict(sorted(known.items())),
            "distinct_measure": "64 bit hash of the run's full event log (operations, deliveries, faults, switches and results)",
            "real_components": prop.REAL,
            "stub_components": prop.STUB,
            "truncated_by_wall_clock": truncated,
            "exhaustive": False,
        },
        "assumptions": prop.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(vios),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in known_lines:
        print(l)
    print(f"{tot['n']} runs, {len(digests)} distinct non-trivial, faults {dict(faults)}, {wall:.1f} s")
    zero = [p for p in getattr(prop, "PROBES", []) if not stats.get(p) and not faults.get(p)]
    if zero and not vios and not truncated and runs is None:
        print(f"note: probes never hit: {zero}")
    if code:
        print(f"VIOLATION property={pid} replay={os.path.relpath(path, ROOT)}")
    return code


def replay(prop, path):
    body = json.load(open(path))
    v = trial(prop, body["plans"])
    if v is None:
        print(f"replay {path}: property {body['property']} held")
        return 0
    print(v["cls"], "-", v["detail"])
    same = v["cls"] == body["violation"]["cls"] and v["detail"] == body["violation"]["detail"]
    print("reproduced exactly" if same else f"reproduced differently; recorded: {body['violation']}")
    print(f"VIOLATION property={body['property']} replay={path}")
    return 1
