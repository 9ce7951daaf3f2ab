"""C13: histories of calls - completed, failing, cut short at a seeded instant, or interleaved in several threads - run under a seeded
ambient configuration of the process.  Everything other code depends on is photographed before and after every call."""
import gc
import logging
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np

from .. import core
from .. import ops
from .. import dists as X
from ..threads import Faults, Sim, Deadlock
from .c03 import CB_EXCS, EXCS, describe

ID = "C13"
RUNS = {"quick": 7000, "thorough": 50000}
CHUNK = 25
BUDGET_S = {"quick": 240, "thorough": 2400}
RULE = "a run in which the process state was compared around at least one call; distinct by hash of the event log"
REAL = ["conjugate (all public operations), numpy, scipy, matplotlib, the process's own global state"]
STUB = ["the ambient configuration, the instant and kind of each interruption, the thread schedule, caller functions and numbers"]
ASSUMPTIONS = ["ambient state is the list in photograph(); files are looked at in the working, home and temporary directories (scratch "
               "directories of the run)", "the same exceptions and thread switch points as in C03 and C04"]
PROBES = ["completed", "failed", "interrupted", "threads", "unseeded", "current-axes", "own-axes", "no-figure", "errstate-raise",
          "warnings-error", "rejected", "caller-function-failed", "plot-interrupted", "sample-interrupted", "looked"]
NOISY = ["plot", "plot", "sample", "joint-sample", "density", "update", "predict"]


EXTRA = ["interactive", "gc-off", "special-warn", "recursion", "switch", "decimal", "logging-off", "bufsize", "errcall", "pandas",
         "showwarning", "own-ambient-generator"]


def gen(rng, i, tier):
    amb = {"err": rng.choice(["warn", "ignore", "raise", "print-less"]), "filters": rng.choice(["ignore", "error", "always", "default", "once", "mixed"]),
           "rc": rng.randrange(5), "figs": rng.choice([[], [1], [1], [2], [1, 2], [0], [1, 0]]), "cur": rng.randrange(3),
           "seed": rng.randrange(2 ** 31), "env": rng.random() < 0.3, "print": rng.random() < 0.3, "log": rng.random() < 0.3,
           "extra": [x for x in EXTRA if rng.random() < 0.12]}
    if i % 5 == 4:
        from . import c04
        p = c04.gen(rng, i, tier)
        return {"mode": "threads", "amb": amb, "threads": p["threads"], "sched": p["sched"], "opcodes": p["opcodes"], "places": p["places"]}
    steps = []
    for _ in range(rng.randint(2, 6)):
        u = rng.random()
        op = ops.gen_callback(rng) if u < 0.15 else ops.gen_number(rng) if u < 0.22 else ops.gen_op(rng, rng.choice(NOISY) if u < 0.6 else None)
        fault = None
        if rng.random() < 0.55:
            if op["op"] in ("callback", "number"):
                fault = {"kind": "call", "at": rng.choice([1, 1, 2, 3, 5]), "exc": rng.choice(sorted(CB_EXCS))}
            else:
                opc = rng.random() < 0.5
                at = rng.choice([rng.randint(1, 8), rng.randint(1, 25), rng.randint(1, 80)]) * (4 if opc else 1)
                fault = {"kind": "opcode" if opc else "line", "at": at, "exc": rng.choice(sorted(EXCS)), "fresh": rng.random() < 0.4}
        st = {"op": op, "fault": fault}
        if op["op"] == "plot" or op.get("which") == "label":
            st["axes"] = rng.choice(["own", "own", "none", "none", "shown"])
            if op["op"] == "plot" and rng.random() < 0.15:
                st["break"] = rng.choice(["bounds", "label", "kwarg"])
        if op["op"] in ("sample", "joint-sample") and rng.random() < 0.25:
            st["unseeded"] = True
        steps.append(st)
    return {"mode": "serial", "amb": amb, "steps": steps}


# ---------------------------------------------------------------- the ambient process
SCIPY = None


def scipy_globals():
    """The shared distribution objects of scipy.stats."""
    global SCIPY
    import scipy.stats as st
    if SCIPY is None:
        SCIPY = [(n, d) for n, d in sorted(vars(st).items()) if hasattr(d, "rvs") and hasattr(d, "_random_state") and not isinstance(d, type)]
    return tuple((n, id(d._random_state), getattr(d, "a", None), getattr(d, "b", None), getattr(d, "badvalue", None),
                  tuple(sorted(k for k in vars(d)))) for n, d in SCIPY)


LIGHT = ("warning filters", "warnings.showwarning", "matplotlib settings", "matplotlib registries", "open figures",
         "axes of open figures", "current figure and axes", "ambient numpy random state", "ambient python random state", "environment",
         "working directory", "signal handlers", "sys", "gc", "locale", "logging", "foreign attributes", "foreign functions")
FOREIGN = ["numpy", "numpy.linalg", "numpy.random", "scipy.special", "scipy.stats", "scipy.linalg", "matplotlib", "matplotlib.pyplot", "warnings",
           "math", "random", "os", "sys", "builtins", "copy", "pickle", "functools", "itertools", "dataclasses"]


def foreign():
    """Functions, classes and (of the interpreter's modules) names that belong to others."""
    import matplotlib.axes
    import matplotlib.figure
    import matplotlib.lines
    import scipy.stats
    fns, names = [], []
    for m in FOREIGN:
        ns = vars(sys.modules[m])
        fns.append((m, tuple((k, id(v)) for k, v in ns.items() if callable(v) and not k.startswith("_") and k != "settrace")))
        if m in ("sys", "builtins", "os", "math", "warnings"):
            names.append((m, tuple(sorted(ns))))
    for c in (matplotlib.axes.Axes, matplotlib.figure.Figure, matplotlib.lines.Line2D, scipy.stats.rv_continuous, scipy.stats.rv_discrete,
              np.random.RandomState, warnings.catch_warnings):
        fns.append((c.__name__, tuple((k, id(v)) for k, v in vars(c).items() if callable(v))))
    return tuple(fns), tuple(names)


def files():
    out = []
    for d in (os.getcwd(), os.environ["HOME"], tempfile.gettempdir()):
        for base, ds, fs in os.walk(d):
            for f in fs + ds:
                p = os.path.join(base, f)
                st = os.lstat(p)
                out.append((p, st.st_size, st.st_mtime_ns))
    return tuple(sorted(out))


def current():
    """(figure number, index of the current axes in it) without creating either."""
    from matplotlib._pylab_helpers import Gcf
    m = Gcf.get_active()
    if m is None:
        return None
    ax = m.canvas.figure._axstack.current()
    return (m.num, None if ax is None else m.canvas.figure.axes.index(ax))


def photograph(light=False):
    import atexit
    import contextvars
    import decimal
    import faulthandler
    import multiprocessing
    import tempfile
    import locale
    import matplotlib
    import matplotlib.pyplot as plt
    import matplotlib.units
    import scipy.special
    import pandas
    s = np.random.get_state()
    from pandas._config import config
    mask = os.umask(0o22)
    os.umask(mask)
    fns, names = foreign()
    out = {
        "numpy floating point error handling": (np.geterr(), id(np.geterrcall()), np.getbufsize()),
        "scipy.special error handling": tuple(sorted(scipy.special.geterr().items())),
        "numpy print options": repr(sorted(np.get_printoptions().items())),
        "warning filters": tuple(warnings.filters),
        "warnings.showwarning": (id(warnings.showwarning), id(warnings.formatwarning)),
        "matplotlib settings": tuple((k, repr(v)) for k, v in dict.items(matplotlib.rcParams)),
        "matplotlib registries": (len(matplotlib.units.registry), tuple(sorted(matplotlib.colormaps)), matplotlib.is_interactive(),
                                  matplotlib.get_backend()),
        "open figures": tuple(plt.get_fignums()),
        "axes of open figures": tuple(tuple(id(a) for a in plt.figure(n).axes) for n in ()) or
                                tuple((m.num, tuple(id(a) for a in m.canvas.figure.axes)) for m in managers()),
        "current figure and axes": current(),
        "ambient numpy random state": (s[1].tobytes(), s[2], s[3], s[4], id(np.random.mtrand._rand)),
        "ambient python random state": random.getstate(),
        "environment": tuple(sorted(os.environ.items())),
        "working directory": os.getcwd(),
        "threads": tuple(sorted(t.name for t in threading.enumerate())),
        "signal handlers": tuple((n, id(signal.getsignal(n))) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD)),
        "sys": (sys.getrecursionlimit(), id(sys.stdout), id(sys.stderr), id(sys.excepthook), tuple(sys.path), sys.getswitchinterval(),
                sys.getprofile(), id(sys.displayhook), id(threading.excepthook), sys.flags.dev_mode, sys.dont_write_bytecode),
        "gc": (gc.isenabled(), gc.get_threshold()),
        "decimal": repr(decimal.getcontext())[:200].split("flags")[0],
        "locale": locale.setlocale(locale.LC_ALL),
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable,
                    tuple(sorted((n, l.level, l.disabled) for n, l in logging.root.manager.loggerDict.items() if isinstance(l, logging.Logger)))),
        "pandas options": (repr(pandas.get_option("display.precision")), repr(config._global_config)),
        "foreign functions": fns,
        "foreign attributes": names,
    }
    if light:
        return {k: out[k] for k in LIGHT}
    out.update({
        "files": files(),
        "open file descriptors": tuple(sorted(os.listdir("/proc/self/fd"))[:-1]).__len__(),
        "scipy.stats shared distributions": scipy_globals(),
        "exit handlers": (atexit._ncallbacks(), len(sys.modules)),
        "process": (mask, faulthandler.is_enabled(), multiprocessing.get_start_method(allow_none=True), tempfile.tempdir, tempfile.template),
        "context variables": tuple(sorted(v.name for v in contextvars.copy_context())),
    })
    return out


def managers():
    from matplotlib._pylab_helpers import Gcf
    return [Gcf.figs[n] for n in sorted(Gcf.figs)]


class Ambient:
    """Sets the process up as the plan says, in scratch directories, and puts everything back."""

    def __init__(self, amb):
        self.a = amb

    def __enter__(self):
        import decimal
        import matplotlib
        import matplotlib.pyplot as plt
        import pandas
        import scipy.special
        a = self.a
        self.keep2 = (gc.isenabled(), scipy.special.geterr(), sys.getrecursionlimit(), sys.getswitchinterval(), decimal.getcontext().prec,
                      logging.root.manager.disable, np.getbufsize(), np.geterrcall(), pandas.get_option("display.precision"),
                      warnings.formatwarning, np.random.get_bit_generator())
        self.keep = (os.getcwd(), dict(os.environ), tempfile.tempdir, np.geterr(), list(warnings.filters), warnings.showwarning,
                     np.get_printoptions(), random.getstate(), np.random.get_state(), logging.root.level)
        self.dir = tempfile.mkdtemp(prefix="dst-c13-")
        for d in ("cwd", "home", "tmp"):
            os.mkdir(os.path.join(self.dir, d))
        os.chdir(os.path.join(self.dir, "cwd"))
        os.environ["HOME"] = os.path.join(self.dir, "home")
        os.environ["TMPDIR"] = os.path.join(self.dir, "tmp")
        tempfile.tempdir = os.path.join(self.dir, "tmp")
        if a["env"]:
            os.environ["DST_EXTRA"] = "1"
        with open("data.csv", "w") as f:
            f.write("x\n1\n")
        matplotlib.rcdefaults()
        matplotlib.use("Agg")
        warnings.showwarning = lambda *x, **k: None
        warnings.resetwarnings()
        warnings.simplefilter("ignore")
        r = a["rc"]
        if r == 1:
            matplotlib.rcParams["axes.prop_cycle"] = matplotlib.cycler(color=["k", "r"])
            matplotlib.rcParams["lines.linewidth"] = 3.5
        elif r == 2:
            plt.style.use("ggplot")
        elif r == 3:
            matplotlib.rcParams["axes.autolimit_mode"] = "round_numbers"
            matplotlib.rcParams["figure.figsize"] = (3, 2)
        elif r == 4:
            matplotlib.rcParams["axes.grid"] = True
            matplotlib.rcParams["figure.max_open_warning"] = 1
        for n in a["figs"]:
            f = plt.figure()
            for k in range(n):
                f.add_subplot(1, n, k + 1).plot([0, 1], [0, 2])
        if a["figs"]:
            f = plt.figure(a["cur"] % len(a["figs"]) + 1)
            if f.axes:
                plt.sca(f.axes[a["cur"] % len(f.axes)])
        x = a.get("extra", [])
        if "own-ambient-generator" in x:
            np.random.set_bit_generator(np.random.MT19937(a["seed"]))
        np.random.seed(a["seed"])
        random.seed(a["seed"])
        if "interactive" in x:
            plt.ion()
        if "gc-off" in x:
            gc.disable()
        if "special-warn" in x:
            scipy.special.seterr(singular="warn", loss="warn")
        if "recursion" in x:
            sys.setrecursionlimit(self.keep2[2] + 1234)
        if "switch" in x:
            sys.setswitchinterval(0.011)
        if "decimal" in x:
            decimal.getcontext().prec = 11
        if "logging-off" in x:
            logging.disable(logging.WARNING)
        if "bufsize" in x:
            np.setbufsize(4096)
        if "errcall" in x:
            np.seterrcall(lambda *b: None)
        if "pandas" in x:
            pandas.set_option("display.precision", 3)
        if "showwarning" in x:
            warnings.formatwarning = lambda *b, **k: ""
        if a["print"]:
            np.set_printoptions(precision=3, suppress=True)
        if a["log"]:
            logging.root.setLevel(logging.ERROR)
        np.seterr(all="ignore" if a["err"] == "ignore" else "raise" if a["err"] == "raise" else "warn")
        if a["err"] == "print-less":
            np.seterr(divide="raise", over="ignore", under="warn", invalid="ignore")
        warnings.resetwarnings()
        if a["filters"] == "mixed":
            warnings.filterwarnings("error", category=DeprecationWarning)
            warnings.filterwarnings("ignore", message="divide.*")
            warnings.simplefilter("default", append=True)
        else:
            warnings.simplefilter(a["filters"])
        return self

    def __exit__(self, *x):
        import decimal
        import matplotlib
        import matplotlib.pyplot as plt
        import pandas
        import scipy.special
        sys.settrace(None)
        plt.ioff()
        plt.close("all")
        gcon, sperr, rec, sw, prec, dis, buf, call, ppr, fmt, bg = self.keep2
        (gc.enable if gcon else gc.disable)()
        scipy.special.seterr(**sperr)
        sys.setrecursionlimit(rec)
        sys.setswitchinterval(sw)
        decimal.getcontext().prec = prec
        logging.disable(dis)
        np.setbufsize(buf)
        np.seterrcall(call)
        pandas.set_option("display.precision", ppr)
        warnings.formatwarning = fmt
        np.random.set_bit_generator(bg)
        matplotlib.rcdefaults()
        matplotlib.use("Agg")
        cwd, env, tmp, err, filt, show, pr, rs, ns, ll = self.keep
        np.seterr(**err)
        warnings.resetwarnings()
        warnings.filters[:] = filt
        warnings._filters_mutated()
        warnings.showwarning = show
        np.set_printoptions(**pr)
        random.setstate(rs)
        np.random.set_state(ns)
        logging.root.setLevel(ll)
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)
        tempfile.tempdir = tmp
        shutil.rmtree(self.dir)


def differences(a, b):
    bad = [k for k in a if k in b and a[k] != b[k]]
    if "exit handlers" in bad and a["exit handlers"][1] != b["exit handlers"][1]:
        bad.remove("exit handlers")     # a module was loaded
    return bad


def watcher(ctx, before, who, allowed=()):
    """What somebody else in the process sees while calls are under way."""
    def look():
        now = photograph(light=True)
        bad = [k for k in differences(now, before) if k not in allowed]
        if bad:
            ctx.violate("ambient", f"{who} while calls were under way: " + " | ".join(show(k, before, now) for k in bad))
        ctx.hit("looked")
    return look


def show(k, a, b):
    x, y = a[k], b[k]
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) == len(y):
            d = [(p, q) for p, q in zip(x, y) if p != q][:2]
            return f"{k}: " + "; ".join(f"{p!r:.150} became {q!r:.150}" for p, q in d)
        return f"{k}: {len(x)} entries became {len(y)}: {[q for q in y if q not in x][:2]!r:.200}"
    return f"{k}: {x!r:.150} became {y!r:.150}"


def execute(plan, ctx):
    amb = plan["amb"]
    if amb["err"] == "raise":
        ctx.hit("errstate-raise")
    if amb["filters"] == "error":
        ctx.hit("warnings-error")
    if not amb["figs"]:
        ctx.hit("no-figure")
    # Prepare first: building plans' objects may use numpy
    with Ambient(amb):
        if plan["mode"] == "threads":
            threads(plan, ctx)
        else:
            serial(plan, ctx)


def own_axes():
    from matplotlib.figure import Figure
    return Figure().add_subplot()


def prepared(st):
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ax = None
        if "axes" in st:
            import matplotlib.pyplot as plt
            if st["axes"] == "own":
                ax = own_axes()
            elif st["axes"] == "shown":
                ms = managers()
                axs = [a for m in ms for a in m.canvas.figure.axes]
                ax = axs[0] if axs else own_axes()
        p = ops.prepare(st["op"], ax)
    if st.get("unseeded"):
        p.stream = None
    return p


def broken(p, st):
    """Variants of a plot call that are rejected."""
    d = p.owned["d"]
    m = getattr(d, p.op["method"])
    kw = {"ax": p.ax}
    if p.op["spec"]["cls"] == "Dirichlet":
        kw.update(samples=5, random_state=p.stream)

    if st["break"] == "bounds":
        if hasattr(d, "_max_value"):
            del d._max_value
        return lambda: m(**kw)
    if st["break"] == "label":
        def bad(i):
            raise RuntimeError("label server down")
        return lambda: m(label=bad, **kw)
    return lambda: m(no_such_property=1, **kw)


def serial(plan, ctx):
    for n, st in enumerate(plan["steps"]):
        p = prepared(st)
        name = describe(st["op"])
        run = broken(p, st) if st.get("break") else p.run
        flt = st["fault"]
        tr, err = None, None
        before = photograph()
        if hasattr(p, "tick"):
            may = ("open figures", "axes of open figures", "current figure and axes") if st.get("axes") == "none" else ()
            p.watch = watcher(ctx, before, f"{name}: seen by the caller's own function", may)
        try:
            if flt is None:
                run()
            else:
                exc = CB_EXCS[flt["exc"]]("injected by the simulator")
                if flt["kind"] == "call":
                    p.fail_at, p.exc = flt["at"], exc
                    run()
                else:
                    tr = Faults(at=flt["at"], exc=exc, opcodes=flt["kind"] == "opcode", fresh=flt.get("fresh", False))
                    with tr:
                        run()
        except (core.Hang, core.StopRun):
            raise
        except BaseException as e:
            err = e
        after = photograph()
        fired = bool(tr and tr.fired) or bool(getattr(p, "fired", False))
        how = "interrupted" if fired else "failed" if err is not None else "completed"
        err = type(err).__name__ if err is not None else None
        ctx.hit(how)
        ctx.hit("completed" if how == "completed" else "failed", 0)
        if fired:
            ctx.fault("caller-function-failure" if flt["kind"] == "call" else "exception-at-" + ("line" if flt["kind"] == "line" else "bytecode"))
            if flt["kind"] == "call":
                ctx.hit("caller-function-failed")
            if st["op"]["op"] == "plot":
                ctx.hit("plot-interrupted")
            if st["op"]["op"] in ("sample", "joint-sample"):
                ctx.hit("sample-interrupted")
        if st.get("break") or st["op"]["op"] == "rejected":
            ctx.fault("rejected-call")
            ctx.hit("rejected")
        allowed = set()
        if st.get("unseeded"):
            ctx.hit("unseeded")
            allowed.add("ambient numpy random state")
        if st.get("axes") == "none":
            ctx.hit("current-axes")
            allowed |= current_axes_rule(before, after)
        elif "axes" in st:
            ctx.hit("own-axes")
        bad = [k for k in differences(before, after) if k not in allowed]
        if bad:
            ctx.violate("ambient", f"{name} ({how}{', ' + err if err else ''}): " + " | ".join(show(k, before, after) for k in bad))
        ctx.log(n, name, how, err)
        ctx.nontrivial = True


def current_axes_rule(before, after):
    """Without an axes argument the call uses the current axes, or creates them."""
    cur = before["current figure and axes"]
    if cur is not None and cur[1] is not None:
        return set()
    # nothing current: one figure (if there was none) and one axes in it may appear, and be current
    nf = len(after["open figures"]) - len(before["open figures"])
    na = sum(len(a) for _, a in after["axes of open figures"]) - sum(len(a) for _, a in before["axes of open figures"])
    if nf == (1 if cur is None else 0) and na == 1 or (nf, na) == (0, 0):
        new = after["current figure and axes"]
        if (nf, na) == (0, 0) or new is not None and new[1] == 0 and (cur is None or cur[0] == new[0]):
            return {"open figures", "axes of open figures", "current figure and axes", "axes"}
    return set()


def threads(plan, ctx):
    from . import c04
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ps, _ = c04.prepare_all(plan)
    before = photograph()

    def task(t):
        def body(sim):
            for p in ps[t]:
                try:
                    p.run(sim.point)
                except (core.Hang, core.StopRun, Deadlock):
                    raise
                except Exception as e:
                    ctx.log("raised", type(e).__name__)
                sim.point()
        return body
    sim = Sim(ctx, plan["sched"], plan["opcodes"], plan.get("places"))
    names = sorted({describe(s["op"]) for th in plan["threads"] for s in th})
    sim.on_switch = watcher(ctx, before, f"interleaved calls of {names}: seen by another thread")
    sim.run([task(t) for t in range(len(ps))])
    after = photograph()
    for tid, e in sim.errors:
        if isinstance(e, Deadlock):
            ctx.violate("deadlock", f"thread {tid}: {e}")
        raise e
    ctx.fault("preemption", sim.switches)
    ctx.hit("threads")
    bad = differences(before, after)
    if bad:
        ctx.violate("ambient", f"interleaved calls of {names}: " + " | ".join(show(k, before, after) for k in bad))
    ctx.log("threads", names, sim.switches)
    ctx.nontrivial = True


def shrink(plan):
    if plan["mode"] == "threads":
        from . import c04
        for c in c04.shrink({k: plan.get(k) for k in ("threads", "sched", "opcodes", "places")}):
            yield dict(plan, **c)
        return
    st = plan["steps"]
    for c in core.list_drops(st):
        if c:
            yield dict(plan, steps=c)
    for k, s in enumerate(st):
        if s["fault"]:
            yield dict(plan, steps=st[:k] + [dict(s, fault=None)] + st[k + 1:])
    a = plan["amb"]
    for c in core.list_drops(a.get("extra", [])):
        yield dict(plan, amb=dict(a, extra=c))
    for f, v in (("figs", []), ("rc", 0), ("err", "warn"), ("filters", "ignore"), ("env", False), ("print", False), ("log", False)):
        if a[f] != v:
            yield dict(plan, amb=dict(a, **{f: v}))


def known_plan(kid):
    raise KeyError(kid)
