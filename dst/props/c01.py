"""C01: a simulated cluster - sources, an unreliable network, learners with crash/restart and a simulated disk.

Every learner must, after each update, hold the exact Bayesian posterior of the observations it has absorbed, and all
learners must have absorbed everything within a bounded time after the last fault.
"""
import copy
import heapq
import pickle
import warnings
import zlib

from .. import core
from .. import families as F

ID = "C01"
RUNS = {"quick": 34000, "thorough": 340000}
CHUNK = 200
BUDGET_S = {"quick": 240, "thorough": 2400}
RULE = ("a simulated cluster run in which at least two non-empty updates were chained by some learner and every belief "
        "was compared with the closed-form posterior of the absorbed multiset; distinct by hash of the event log")
REAL = ["conjugate.models (all 30 posterior functions)", "conjugate.distributions (prior/posterior classes, "
        "approx_log_likelihood/log_likelihood)", "numpy, scipy, pandas, pickle"]
STUB = ["network (delay, loss, duplication, reordering, partitions)", "disk (synced and unsynced bytes, torn writes)",
        "clock", "processes (sources, learners): event handlers of the simulator"]
ASSUMPTIONS = ["observations and hyper-parameters are of moderate size; agreement is judged to ~1e-9 relative "
               "(1e-8 for matrices), scaled by the magnitude of the terms that cancel",
               "de-duplication of messages is done by the simulated application (message ids)"]
PROBES = ["update", "empty-batch", "restore-from-disk", "restore-from-prior", "torn-write-skipped", "duplicate-ignored",
          "coalesced", "lane-without-data", "reordered", "chained"]
FAMS = [f.name for f in F.ALL + F.EXTRA]
RTO = 8.0
HORIZON = 4000.0


def gen(rng, i, tier):
    fam = F.BY_NAME[FAMS[i % len(FAMS)]]
    shape = ()
    if fam.lanes and rng.random() < 0.55:
        shape = rng.choice([(2,), (3,), (5,), (1,), (2, 3), (3, 1), (2, 2)])
        if rng.random() < 0.04:
            shape = rng.choice([(70,), (12,), (9, 11), (2, 1, 2)])
    rng.wide = 0.3 if rng.random() < 0.2 else 0
    cfg = fam.gen_cfg(rng, shape)
    rng.wide = 0
    shape = cfg["shape"]
    K = fam.nlanes(cfg)
    kind = rng.choice(fam.kinds(shape))
    skind = kind
    if kind != "frac" and rng.random() < 0.4:
        skind = rng.choice([k for k in fam.kinds(shape) if k != "frac"])
        if {kind, skind} == {"series", "labelled"}:
            skind = kind    # pandas would align by label
    nsrc = rng.randint(1, 3)
    nlearn = rng.randint(1, 3)
    big = rng.random() < (0.05 if tier == "quick" else 0.1)
    msgs = []
    huge = rng.random() < 0.06 and not fam.single
    if huge:
        nsrc = nlearn = 1
    for s in range(nsrc):
        t = 0.0
        for m in range(rng.randint(1, 4) if not big else rng.randint(5, 25)):
            t += round(rng.expovariate(0.5), 3)
            size = 1 if fam.single else rng.choice([0, 1, 1, 2, 3, 6] if not big else [0, 1, 5, 20])
            if huge and m == 0:
                size = rng.choice([40, 150, 600, 2500])
                if "prod" in fam.merge.values():
                    size = min(size, 300)
            lanes = [rng.randrange(K) for _ in range(size)]
            if K > 1 and rng.random() < 0.4:
                lanes = [lanes[0]] * size if lanes else []
            if rng.random() < 0.2 and K > 1 and not fam.single:
                lanes = list(range(K))
            msgs.append({"src": s, "t": t, "batch": [[ln, fam.gen_obs(rng, fam.lane(cfg, "consts", ln))] for ln in lanes]})
    faulty = rng.random() < 0.85
    net = []
    for _ in range(len(msgs) * nlearn * 3 if faulty else 0):
        u = rng.random()
        net.append({"d": round(rng.choice([0.1, 1.0, 5.0, 30.0]) * rng.uniform(0.5, 1.5), 3),
                    "drop": u < 0.2, "dup": round(rng.uniform(0.1, 20), 3) if u > 0.85 else 0})
    crashes = []
    parts = []
    if faulty:
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            crashes.append({"l": rng.randrange(nlearn), "t": round(rng.uniform(0.5, 40), 3), "down": round(rng.uniform(0.1, 20), 3),
                            "torn": rng.choice([0.0, 0.3, 0.7, 1.0])})
        for _ in range(rng.choice([0, 0, 1])):
            t0 = round(rng.uniform(0, 20), 3)
            parts.append({"s": rng.randrange(nsrc), "l": rng.randrange(nlearn), "t0": t0, "t1": t0 + round(rng.uniform(1, 30), 3)})
    return {"fam": fam.name, "cfg": cfg, "kind": kind, "skind": skind, "nlearn": nlearn, "msgs": msgs, "net": net, "crashes": crashes,
            "parts": parts,
            "learn": [{"tick": round(rng.choice([0.0, 0.0, 3.0, 11.0]), 3), "coalesce": rng.choice(["none", "obs", "stats"]),
                       "save_every": rng.choice([1, 2, 4]), "sync": round(rng.uniform(0.1, 6), 3),
                       "idle": rng.random() < 0.3, "squeeze": rng.random() < 0.4, "mode": rng.choice(["pickle", "pickle", "deepcopy"])}
                      for _ in range(nlearn)],
            "share": rng.random() < 0.7}


def pack(state):
    body = pickle.dumps(state)
    return zlib.crc32(body).to_bytes(4, "big") + body


def unpack(b):
    if len(b) < 5 or zlib.crc32(b[4:]).to_bytes(4, "big") != b[:4]:
        return None
    return pickle.loads(b[4:])


class Learner:
    def __init__(self, idx, conf):
        self.idx, self.conf = idx, conf
        self.slots = [None, None]    # durable bytes
        self.pending = None          # (slot, bytes, durable-at)
        self.version = 0
        self.up = True
        self.epoch = 0


def execute(plan, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _execute(plan, ctx)


def _execute(plan, ctx):
    fam = F.BY_NAME[plan["fam"]]
    cfg, kind = plan["cfg"], plan["kind"]
    skind = plan.get("skind", kind)
    msgs = plan["msgs"]
    nlearn = plan["nlearn"]
    known_mode = fam.known if (fam.known and (ID, fam.known) in core.KNOWN) else None
    try:
        shared_prior = fam.make_prior(cfg, kind)
    except Exception as e:
        ctx.violate("raised", f"{fam.name}: building the prior: {type(e).__name__}: {e}")
    payload = {}        # message id -> the one stats object all deliveries share
    heap = []
    seq = [0]

    def at(t, kind_, *a):
        seq[0] += 1
        heapq.heappush(heap, (t, seq[0], kind_, a))

    netpos = [0]
    acked = {}
    learners = [Learner(i, plan["learn"][i]) for i in range(nlearn)]
    arrivals = [[] for _ in range(nlearn)]

    def start(L):
        best = None
        for b in L.slots:
            st = unpack(b) if b else None
            if b and st is None:
                ctx.hit("torn-write-skipped")
            if st is not None and (best is None or st["v"] > best["v"]):
                best = st
        if best:
            ctx.hit("restore-from-disk")
            L.belief, L.seen, L.obs, L.version, L.updates = best["belief"], best["seen"], best["obs"], best["v"], best["u"]
        else:
            if L.epoch:
                ctx.hit("restore-from-prior")
            L.belief = shared_prior if plan["share"] else fam.make_prior(cfg, kind)
            L.seen, L.obs, L.version, L.updates = [], [], 0, []
        L.inbox = []
        L.unacked = []
        L.dirty = 0
        L.pending = None
        L.up = True
        L.epoch += 1
        if L.conf["tick"]:
            at(now + L.conf["tick"], "tick", L.idx, L.epoch)

    def send(m, l, t):
        d = {"d": 1.0, "drop": False, "dup": 0}
        if netpos[0] < len(plan["net"]):
            d = plan["net"][netpos[0]]
            netpos[0] += 1
        src = msgs[m]["src"]
        for p in plan["parts"]:
            if p["s"] == src and p["l"] == l and p["t0"] <= t < p["t1"]:
                ctx.fault("partitioned")
                return
        if d["drop"]:
            ctx.fault("message-lost")
        else:
            at(t + d["d"], "deliver", m, l)
            if d["d"] > 5:
                ctx.fault("message-delayed")
        if d["dup"]:
            ctx.fault("message-duplicated")
            at(t + d["dup"], "deliver", m, l)

    def apply(L, ids, batch, stats, t):
        """One call of the model function."""
        try:
            values = fam.stat_values(cfg, stats, skind, L.conf["squeeze"])
            key = tuple(ids)
            if len(ids) == 1:
                # zero-copy delivery: all receivers of a message see the same arrays
                values = payload.setdefault((key, L.conf["squeeze"]), values)
            new = fam.update(L.belief, cfg, values, skind)
        except Exception as e:
            ctx.violate("raised", f"{fam.name}: update with a batch of {len(batch)}: {type(e).__name__}: {e}")
        L.belief = new
        L.seen = L.seen + list(ids)
        L.obs = L.obs + batch
        L.updates = L.updates + [[sum(1 for _ in batch), stats[0] if not cfg["shape"] else None]]
        ctx.hit("update")
        if not batch:
            ctx.hit("empty-batch")
        if cfg["shape"] and batch and len({b[0] for b in batch}) < fam.nlanes(cfg):
            ctx.hit("lane-without-data")
        if len([u for u in L.updates if u[0]]) >= 2:
            ctx.hit("chained")
            ctx.nontrivial = True
        verify(L, t)

    def verify(L, t):
        bad = None
        if not known_mode:
            bad = fam.compare(L.belief, cfg, L.obs)
        else:
            bad = fam.compare(L.belief, cfg, L.obs)
            if bad:
                # the listed defect: every update adds prior.n - x_total instead of n - x_total
                p = cfg["prior"]
                wrong = p["beta"] + sum(p["n"] - u[1]["x_total"] for u in L.updates)
                nat = fam.natural(L.belief, cfg)
                want = fam.ref(p, {}, [o for _, o in L.obs])
                if (abs(nat["beta"][0] - wrong) <= 1e-9 * abs(wrong) and nat["n"][0] == p["n"]
                        and abs(nat["alpha"][0] - want["alpha"][0]) <= 1e-9 * want["alpha"][0]):
                    ctx.known.append(known_mode)
                    bad = None
        ctx.log("belief", L.idx, round(t, 6), sorted(L.seen), *(
            [core_hash(v) for v in fam.natural(L.belief, cfg).values()] if bad is None and not plan["fam"].endswith("dirichlet") else [repr(bad)]))
        if bad:
            ctx.violate("wrong-posterior", f"{fam.name} ({kind}): {bad}")

    def drain(L, t):
        if not L.inbox:
            return
        ids = []
        for m in L.inbox:
            if m in L.seen or m in ids:
                ctx.hit("duplicate-ignored")
            else:
                ids.append(m)
        L.inbox = []
        if not ids:
            return
        if ids != sorted(ids):
            ctx.hit("reordered")
        if L.conf["coalesce"] == "none" or fam.single or len(ids) == 1:
            for m in ids:
                b = msgs[m]["batch"]
                apply(L, [m], b, fam.batch_stats(cfg, b), t)
        elif L.conf["coalesce"] == "obs":
            ctx.hit("coalesced")
            b = [o for m in ids for o in msgs[m]["batch"]]
            apply(L, ids, b, fam.batch_stats(cfg, b), t)
        else:
            ctx.hit("coalesced")
            st = fam.batch_stats(cfg, msgs[ids[0]]["batch"])
            for m in ids[1:]:
                st = fam.merge_stats(st, fam.batch_stats(cfg, msgs[m]["batch"]))
            apply(L, ids, [o for m in ids for o in msgs[m]["batch"]], st, t)
        L.dirty += 1
        L.unacked += ids
        save(L, t)

    def save(L, t):
        if L.pending is None and L.dirty >= L.conf["save_every"]:
            begin_save(L, t)

    def begin_save(L, t):
        L.version += 1
        slot = L.version % 2
        if L.conf["mode"] == "deepcopy":
            L.belief = copy.deepcopy(L.belief)
        try:
            data = pack({"v": L.version, "belief": L.belief, "seen": L.seen, "obs": L.obs, "u": L.updates})
        except Exception as e:
            ctx.violate("raised", f"{fam.name}: saving the belief: {type(e).__name__}: {e}")
        L.pending = (slot, data, L.unacked)
        L.unacked = []
        L.dirty = 0
        at(t + L.conf["sync"], "synced", L.idx, L.epoch)

    now = 0.0
    for L in learners:
        start(L)
    for m, msg in enumerate(msgs):
        for l in range(nlearn):
            at(msg["t"], "send", m, l)
    for c in plan["crashes"]:
        at(c["t"], "crash", c)
    last_fault = max([c["t"] + c["down"] for c in plan["crashes"]] + [p["t1"] for p in plan["parts"]] + [0])
    need = {(m, l) for m in range(len(msgs)) for l in range(nlearn)}
    steps = 0
    while heap:
        now, _, ev, a = heapq.heappop(heap)
        steps += 1
        if now > HORIZON or steps > 200000:
            ctx.violate("no-progress", f"{fam.name}: {len(need)} messages still not durable at t={now}")
        if not need:
            break
        if ev == "send":
            m, l = a
            if (m, l) not in need:
                continue
            send(m, l, now)
            at(now + RTO, "send", m, l)
        elif ev == "deliver":
            m, l = a
            L = learners[l]
            if not L.up:
                ctx.fault("lost-at-crashed-process")
                continue
            L.inbox.append(m)
            if not L.conf["tick"]:
                drain(L, now)
        elif ev == "tick":
            l, ep = a
            L = learners[l]
            if L.up and L.epoch == ep:
                if L.conf["idle"] and not L.inbox and not fam.single and len(L.updates) < 40:
                    apply(L, [], [], fam.batch_stats(cfg, []), now)   # heartbeat: an empty batch
                drain(L, now)
                if L.dirty and L.pending is None:
                    begin_save(L, now)
                at(now + L.conf["tick"], "tick", l, ep)
        elif ev == "synced":
            l, ep = a
            L = learners[l]
            if L.up and L.epoch == ep and L.pending:
                slot, data, ids = L.pending
                L.slots[slot] = data
                L.pending = None
                for m in ids:
                    need.discard((m, l))
                if L.dirty:
                    begin_save(L, now)
        elif ev == "crash":
            c = a[0]
            L = learners[c["l"]]
            if not L.up:
                continue
            ctx.fault("crash")
            if L.pending:
                slot, data, ids = L.pending
                keep = int(len(data) * c["torn"])
                ctx.fault("unsynced-write-lost" if keep == 0 else ("torn-write" if keep < len(data) else "unsynced-write-kept"))
                if keep:
                    L.slots[slot] = data[:keep]
            L.up = False
            L.pending = None
            at(now + c["down"], "restart", c["l"])
        elif ev == "restart":
            L = learners[a[0]]
            start(L)
            # what is durable is acknowledged again, the rest will be retransmitted
            for m in L.seen:
                need.discard((m, L.idx))
            for m in range(len(msgs)):
                if m not in L.seen:
                    if (m, L.idx) not in need:
                        ctx.violate("harness-durability", f"acknowledged message {m} lost")
            verify(L, now)
        # learners without tick save on demand
        for L in learners:
            if L.up and not L.conf["tick"] and L.dirty and L.pending is None:
                begin_save(L, now)
    ctx.sim_time += now
    # final: everyone absorbed everything; in-memory beliefs equal the full posterior
    for L in learners:
        if L.up:
            missing = [m for m in range(len(msgs)) if m not in L.seen]
            if missing:
                ctx.violate("no-progress", f"learner {L.idx} lacks {missing}")
            verify(L, now)
    # the prior everybody started from is still the prior
    bad = fam.compare(shared_prior, cfg, [])
    if bad:
        ctx.violate("prior-changed", f"{fam.name}: the shared prior is no longer the prior: {bad}")


def core_hash(a):
    import hashlib
    import numpy as np
    return hashlib.blake2b(np.ascontiguousarray(np.asarray(a, dtype=float)).tobytes(), digest_size=6).hexdigest()


def shrink(plan):
    for key in ("crashes", "parts", "net", "msgs"):
        for c in core.list_drops(plan[key]):
            if key == "msgs" and not c:
                continue
            yield dict(plan, **{key: c})
    if plan["nlearn"] > 1:
        n = plan["nlearn"] - 1
        yield dict(plan, nlearn=n, learn=plan["learn"][:n], crashes=[c for c in plan["crashes"] if c["l"] < n],
                   parts=[p for p in plan["parts"] if p["l"] < n])
    for m in range(len(plan["msgs"])):
        b = plan["msgs"][m]["batch"]
        if F.BY_NAME[plan["fam"]].single:
            continue
        for c in core.list_drops(b):
            ms = list(plan["msgs"])
            ms[m] = dict(ms[m], batch=c)
            yield dict(plan, msgs=ms)
    for l in range(plan["nlearn"]):
        for k, v in (("tick", 0.0), ("coalesce", "none"), ("idle", False), ("squeeze", False), ("mode", "pickle"), ("save_every", 1)):
            if plan["learn"][l][k] != v:
                ls = list(plan["learn"])
                ls[l] = dict(ls[l], **{k: v})
                yield dict(plan, learn=ls)
    if plan["kind"] != "float":
        yield dict(plan, kind="float")
    if plan.get("skind", plan["kind"]) != plan["kind"]:
        yield dict(plan, skind=plan["kind"])


def known_plan(kid):
    assert kid == "hypergeometric"
    return {"fam": "hypergeometric_beta_binomial",
            "cfg": {"fam": "hypergeometric_beta_binomial", "shape": [], "prior": {"n": 20.0, "alpha": 1.0, "beta": 1.0}, "consts": {}},
            "kind": "float", "nlearn": 1, "net": [], "crashes": [], "parts": [],
            "msgs": [{"src": 0, "t": 0.5, "batch": [[0, [2, 1]]]}, {"src": 0, "t": 1.5, "batch": [[0, [2, 1]]]}],
            "learn": [{"tick": 0.0, "coalesce": "none", "save_every": 1, "sync": 0.1, "idle": False, "squeeze": False, "mode": "pickle"}],
            "share": True}
