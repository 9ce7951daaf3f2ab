"""C11: several callers plot on figures and axes they share, in seeded order, between reassignments of parameters and bounds, drawing of
their own, switches of the current axes, rejected calls and calls cut short.  A plain record of every axes is kept; after each step every
axes, touched or not, is compared with it."""
import copy
import math
import warnings

import numpy as np

from .. import core
from .. import dists as X
from .. import ops
from .. import refdist
from ..families import pos
from ..threads import Faults
from .c03 import EXCS
from .c10 import new_value

ID = "C11"
RUNS = {"quick": 3500, "thorough": 50000}
CHUNK = 25
BUDGET_S = {"quick": 240, "thorough": 2400}
RULE = "a run in which at least one curve was drawn and compared; distinct by hash of the event log"
REAL = ["conjugate.plot, every plottable distribution of conjugate.distributions, matplotlib (figures, axes, autoscaling)"]
STUB = ["the callers, their order, their own drawing, failing label functions, the instants of interruptions; nothing is rendered"]
ASSUMPTIONS = ["a continuous curve is judged at the points it was drawn through: first and last point at the bounds, increasing, at least 50 "
               "points; a discrete one at every whole number between the bounds",
               "a Dirichlet curve is the kernel density of draws of the seeded sampler",
               "the vertical range is compared for axes whose limits no caller fixed; non-finite ordinates are outside any range, and so are "
               "negative ones (the cdf of a wrapped law counted from its centre)",
               "lanes have at most one dimension; bounds are plain numbers; colours given as a list change the colour cycle of the axes (by design)"]
PROBES = ["pdf", "cdf", "pmf", "conditional", "dirichlet", "lanes", "labels-list", "labels-callable", "labels-iterator", "reassigned", "edited",
          "rebounded", "current", "created-figure", "created-axes", "polar", "shared-y", "external", "order-compared", "rejected-bounds",
          "rejected-label", "rejected-length", "rejected-kwarg", "interrupted", "auto-bounds", "fixed-limits", "colors", "constructed",
          "closed-figure", "subfigure"]
CLASSES = sorted(X.ELEM) + ["Dirichlet", "Dirichlet"]


def gen_spec(rng, cls=None):
    cls = cls or rng.choice(CLASSES)
    if cls == "Dirichlet":
        s = X.gen_vector(rng, "Dirichlet")
    else:
        s = X.gen_elem(rng, cls, rng.choice([(), (), (1,), (2,), (3,), (4,), (4,), (11,)]), integral=rng.random() < 0.3)
        s["int"] = rng.random() < 0.3
    s["auto"] = cls in X.AUTO_MAX | {"Dirichlet"} and rng.random() < 0.5 and cls != "BetaNegativeBinomial"
    if not s["auto"]:
        s["bounds"] = gen_bounds(rng, s)
    s["set"] = rng.choice(["set_bounds", "setters", "attrs", "max-only"])
    return s


def gen_bounds(rng, spec):
    if spec["cls"] == "Dirichlet":
        return rng.choice([[0.0, 1.0], [0.1, 0.8]])
    b = X.default_bounds(rng, spec)
    if rng.random() < 0.5:
        if spec["cls"] in X.DISCRETE:
            b = [b[0] + rng.choice([0, 1, 2]), b[1] + rng.choice([-1, 0, 3, 14])]
        else:
            w = b[1] - b[0]
            b = [round(b[0] + w * rng.uniform(0, 0.3), 3), round(b[1] - w * rng.uniform(0, 0.3), 3)]
    u = rng.random()
    if spec["cls"] == "VonMises" or u > 0.32:
        return b
    if u > 0.25 and spec["cls"] not in X.DISCRETE and b[0] > 0:
        # close to the origin, or far from it
        lo = rng.choice([0.004, 0.0004, 1e-5])
        return rng.choice([[lo, 50 * lo], [lo, b[1]], [lo, 1.0], [5000.0, 5000.5], [b[0], 2e5]])
    # far beyond, a sliver, or past the end of the support
    if spec["cls"] in X.DISCRETE:
        return [[b[0], b[1] + 240], [b[0] - rng.choice([1, 3]), b[1]], [b[1] - 1, b[1]], [b[0], b[0] + 1]][rng.randrange(4)]
    w = b[1] - b[0]
    if spec["cls"] in ("Normal", "StudentT", "Uniform", "UserLaplace") and rng.random() < 0.25:
        return rng.choice([[b[0], 0], [b[0], 0.0], [0, b[1]], [b[0], -1.5]])
    return [[b[0], round(b[1] + 60 * w + rng.choice([0, 1500]), 3)], [round(b[0] - w * rng.choice([0.2, 80]), 3), b[1]],
            [round(b[0] + 0.3 * w, 4), round(b[0] + 0.32 * w, 4) + 0.01], [math.floor(b[0]), math.ceil(b[1]) + 1]][rng.randrange(4)]


def gen_plot(rng, spec):
    cls = spec["cls"]
    p = {"label": rng.choice(["none", "none", "str", "str", "list", "callable", "callable", "tuple", "array", "iter", "holes"]),
         "kw": rng.choice([{}, {}, {}, {"linewidth": 2.5}, {"alpha": 0.4}, {"linestyle": "--"}, {"color": "red"}, {"color": "C3"},
                           {"colors": ["red", "blue", "green"]}])}
    if cls == "Dirichlet":
        if "colors" in p["kw"]:
            p["kw"] = {}
        return dict(p, method="plot_pdf", samples=rng.choice([30, 60]), rs=[rng.choice(["int", "RandomState", "Generator"]), rng.randrange(2 ** 31)])
    disc = cls in X.DISCRETE
    p["method"] = ("plot_pmf" if disc else "plot_pdf") if cls in X.HAND_WRITTEN or rng.random() < 0.65 else "plot_cdf"
    if disc:
        p["conditional"] = rng.random() < 0.35
    if disc and rng.random() < 0.3:
        p["mark"] = rng.choice(["x", "o", "^-", "-"])
    return p


def gen(rng, i, tier):
    first = CLASSES[i % len(CLASSES)]
    specs = [gen_spec(rng, first if rng.random() < 0.8 else None)]
    for _ in range(rng.choice([1, 1, 2, 3])):
        specs.append(gen_spec(rng, first if rng.random() < 0.35 else None))
    axes = [{"fig": rng.randrange(2), "polar": rng.random() < 0.12} for _ in range(rng.choice([1, 2, 2, 3]))]
    steps = []
    for _ in range(rng.randint(3, 9 if tier == "quick" else 18)):
        o = rng.randrange(len(specs))
        u = rng.random()
        if u < 0.52:
            s = dict(gen_plot(rng, specs[o]), op="plot", o=o, ax=rng.choice([None, 0, 0, 0, 1, 2]))
            v = rng.random()
            if v < 0.1:
                s["break"] = rng.choice(["label", "length", "kwarg", "bounds"])
                s["at"] = rng.randrange(4)
            elif v < 0.2:
                opc = rng.random() < 0.4
                s["cut"] = {"opcodes": opc, "at": rng.choice([rng.randint(1, 12), rng.randint(1, 45)]) * (5 if opc else 1), "exc": rng.choice(sorted(EXCS)), "fresh": rng.random() < 0.4}
        else:
            k = rng.choice(["assign", "assign", "edit", "bounds", "bounds", "external", "external", "sca", "newfig", "newax", "close", "limits",
                            "new", "labels", "copy"])
            s = {"op": k, "o": o, "ax": rng.randrange(3), "seed": rng.randrange(2 ** 31)}
            if k == "bounds":
                s.update(b=gen_bounds(rng, specs[o]), how=rng.choice(["set_bounds", "setters", "attrs"]))
            if k == "external" and rng.random() < 0.3:
                s["what"] = "axvline"
        steps.append(s)
    return {"specs": specs, "axes": axes, "sharey": rng.random() < 0.2, "figs": rng.choice(["plt", "plt", "own", "sub"]), "steps": steps,
            "order": rng.randrange(2 ** 31)}


# ---------------------------------------------------------------- record
class Line:
    def __init__(self, line):
        self.line, self.sig = line, line_state(line)


def line_state(l):
    x, y = l.get_data(orig=False)
    return (np.asarray(x, dtype=float).tobytes(), np.asarray(y, dtype=float).tobytes(), str(l.get_label()), str(l.get_color()), l.get_linewidth(),
            str(l.get_linestyle()), l.get_alpha(), str(l.get_marker()), l.get_visible())


def ax_state(ax):
    """Everything a reader of an axes sees besides its lines."""
    return (ax.get_xlabel(), ax.get_ylabel(), ax.get_title(), tuple(ax.get_xlim()), tuple(ax.get_ylim()), len(ax.texts), len(ax.patches),
            len(ax.collections), len(ax.images), ax.get_legend() is not None, tuple(np.asarray(ax.get_xticks(), dtype=float).tolist()),
            tuple(np.asarray(ax.get_xticks(minor=True), dtype=float).tolist()), ax.get_xscale(), ax.get_yscale(), ax.get_visible(),
            ax.get_autoscalex_on(), ax.get_autoscaley_on())


def current_axes():
    from matplotlib._pylab_helpers import Gcf
    m = Gcf.get_active()
    return None if m is None else (m.canvas.figure, m.canvas.figure._axstack.current())


class World:
    def __init__(self, plan):
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        self.plt = plt
        plt.close("all")
        self.axes = []
        figs = {}
        share = {}
        for k, a in enumerate(plan["axes"]):
            f = figs.get(a["fig"])
            if f is None:
                f = plt.figure() if plan["figs"] != "own" else Figure()
                if plan["figs"] == "sub":
                    f = f.subfigures(1, 2)[0]
                figs[a["fig"]] = f
            kw = {"projection": "polar"} if a["polar"] else {}
            if plan["sharey"] and not a["polar"] and share.get(a["fig"]):
                kw["sharey"] = share[a["fig"]]
            ax = f.add_subplot(1, len(plan["axes"]), k + 1, **kw)
            if not a["polar"]:
                share.setdefault(a["fig"], ax)
            self.add(ax)
        self.sharey = plan["sharey"]

    def add(self, ax):
        ax._dst = len(self.axes)
        self.axes.append(ax)
        if not hasattr(self, "lines"):
            self.lines, self.state, self.fixed, self.pkg = {}, {}, {}, {}
        k = ax._dst
        self.lines[k] = [Line(l) for l in ax.lines]
        self.state[k] = ax_state(ax)
        self.fixed[k] = False
        self.pkg[k] = []
        return k

    def index(self, ax):
        return getattr(ax, "_dst", None)

    def siblings(self, k):
        ax = self.axes[k]
        return {j for j, b in enumerate(self.axes) if ax.get_shared_y_axes().joined(ax, b) or ax.get_shared_x_axes().joined(ax, b)}

    def all_axes(self):
        """All axes there are: known ones and those of registered figures."""
        from matplotlib._pylab_helpers import Gcf
        out = list(self.axes)
        for n in sorted(Gcf.figs):
            for a in Gcf.figs[n].canvas.figure.axes:
                if all(a is not b for b in out):
                    out.append(a)
        return out


def value_of(v):
    return v


def execute(plan, ctx):
    import matplotlib
    import matplotlib.pyplot as plt
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            run(plan, ctx)
        finally:
            plt.close("all")
            matplotlib.rcdefaults()
            matplotlib.use("Agg")


class Caller:
    def __init__(self, spec, ctx):
        self.spec = spec
        s = {k: v for k, v in spec.items() if k not in ("bounds",)}
        self.d = X.build(s)
        self.bounds = None
        self.set_class = spec["cls"]
        if spec.get("auto"):
            ctx.hit("auto-bounds")
            check_auto(self, ctx)
        else:
            self.set_bounds(spec["bounds"], spec["set"])

    def set_bounds(self, b, how):
        d = self.d
        if how == "setters":
            r = d.set_max_value(b[1]).set_min_value(b[0])
        elif how == "attrs":
            d.min_value, d.max_value = b
            r = d
        elif how == "max-only" and self.spec["cls"] not in ("Uniform", "VonMises", "UserArcsine") and b[1] > 0.01:
            r = d.set_max_value(b[1])
            b = [0, b[1]]
        else:
            r = d.set_bounds(*b)
        assert r is d or type(r) is type(d), "setters return the distribution"
        self.bounds = list(b)


def check_auto(c, ctx):
    """Bounds which the constructor sets cover the support."""
    d, f = c.d, c.spec["fields"]
    cls = c.spec["cls"]
    lo, hi = float(d.min_value), float(d.max_value)
    mx = lambda k: float(np.max(f[k]))
    want = {"Beta": (0, 1), "Dirichlet": (0, 1), "VonMises": (-math.pi, math.pi)}.get(cls)
    if cls in ("Binomial", "BetaBinomial"):
        want = (0, mx("n"))
    elif cls == "Hypergeometric":
        want = (0, float(np.max(np.minimum(f["k"], f["n"]))))
    elif cls == "Uniform":
        want = (float(np.min(f["low"])), mx("high"))
    elif cls == "UserArcsine":
        want = (float(np.min(f["low"])), float(np.max(np.add(f["low"], f["width"]))))
    if not (lo <= want[0] and hi >= want[1]):
        ctx.violate("bounds", f"{cls}{f}: plotting bounds [{lo}, {hi}] do not cover the support {want}")
    if cls in ("Beta", "Dirichlet", "VonMises", "Uniform", "Binomial", "BetaBinomial") and (lo, hi) != want:
        ctx.violate("bounds", f"{cls}{f}: plotting bounds [{lo}, {hi}] are not the support {want}")
    c.bounds = [d.min_value, d.max_value]


# ---------------------------------------------------------------- expected curves
def lanes(c):
    if c.spec["cls"] == "Dirichlet":
        return len(np.asarray(c.d.alpha))
    shp = np.broadcast_shapes(*[np.shape(v) for v in X.fields_of(c.d).values()])
    return shp[0] if shp else 1


def labels_for(kind, K):
    """(argument, expected labels or None where matplotlib chooses)."""
    if kind == "none":
        return None, None
    if kind == "str":
        return "curve", ["curve"] if K == 1 else [f"curve {i}" for i in range(1, K + 1)]
    names = [f"n{i}" for i in range(K)]
    if kind == "callable":
        return (lambda i: f"c{i}"), [f"c{i}" for i in range(K)]
    if kind == "tuple":
        return tuple(names), names
    if kind == "array":
        return np.array(names), names
    if kind == "iter":
        return iter(names), names
    if kind == "holes":
        names[K // 2] = None
        return list(names), names
    return list(names), names


def resolve_kind(kind, c, K):
    """A list of names for a distribution of plain numbers is passed on unchanged (pinned by a test): not generated."""
    if c.spec["cls"] != "Dirichlet" and K == 1 and kind in ("list", "tuple", "array", "iter", "holes"):
        shapes = [np.shape(v) for v in X.fields_of(c.d).values()]
        return "str" if not any(shapes) or kind in ("iter", "holes") else kind
    return kind


def expect_x(c, x, ctx, name):
    lo, hi = c.bounds
    if c.spec["cls"] in X.DISCRETE:
        want = np.arange(math.floor(lo + 0.0), math.floor(hi) + 1)
        if x.shape != want.shape or not np.allclose(x, want, rtol=0, atol=1e-9):
            ctx.violate("curve", f"{name}: drawn over {x[:3]}..{x[-3:]} ({len(x)} points) instead of the whole numbers {lo}..{hi}")
        return
    tol = 1e-9 * max(abs(lo), abs(hi))
    if len(x) < 50 or abs(x[0] - lo) > tol or abs(x[-1] - hi) > tol or np.any(np.diff(x) <= 0):
        ctx.violate("curve", f"{name}: drawn over {x[:2]}..{x[-2:]} ({len(x)} points) instead of [{lo}, {hi}]")


def reference(c, s, x, pinned=False):
    """lo, hi: (K, len(x)) bands around the true curves."""
    cls = c.spec["cls"]
    f = X.fields_of(c.d)
    K = lanes(c)
    if cls == "Dirichlet":
        import scipy.stats as st
        smp = st.dirichlet(np.asarray(f["alpha"], dtype=float)).rvs(size=s["samples"], random_state=ops.rng_of(s["rs"]))
        y = np.stack([st.gaussian_kde(col)(x) for col in smp.T])
        return y, y
    out = []
    e = 0.0 if cls in X.DISCRETE else 1e-9
    for k in range(K):
        fk = {n: (v if n == "one_start" else np.asarray(v, dtype=float).reshape(-1)[k if np.size(v) > 1 else 0]) for n, v in f.items()}
        if s["method"] == "plot_cdf":
            ys = [refdist.ref_cdf(cls, fk, x + t * np.maximum(1, abs(x))) for t in (-e, 0, e)]
            if s.get("conditional"):
                if pinned:
                    ys = [y / y.sum() for y in ys]
                else:
                    below = refdist.ref_cdf(cls, fk, x[:1] - 1)[0]
                    ys = [(y - below) / (y[-1] - below) for y in ys]
        else:
            ys = [np.exp(refdist.ref_log(cls, fk, x + t * np.maximum(1, abs(x)))) for t in (-e, 0, e)]
            if s.get("conditional"):
                ys = [y / y.sum() for y in ys]
        out.append((np.nanmin(ys, axis=0), np.nanmax(ys, axis=0)))
    return np.array([o[0] for o in out]), np.array([o[1] for o in out])


def check_lines(ctx, c, s, new, labels, name, partial=False):
    K = lanes(c)
    if len(new) != K and not partial:
        ctx.violate("curve", f"{name}: {len(new)} lines were added for {K} lanes")
    if len(new) > K:
        ctx.violate("curve", f"{name}: {len(new)} lines were added for {K} lanes")
    for k, l in enumerate(new):
        x, y = (np.asarray(v, dtype=float).ravel() for v in l.get_data())
        expect_x(c, x, ctx, name)
        lo, hi = reference(c, s, x)
        lo, hi = lo[k], hi[k]
        tol = 2e-6 * np.where(np.isfinite(hi), abs(hi), 0) + 1e-10
        ok = (y >= lo - tol) & (y <= hi + tol) | np.isnan(lo) & np.isnan(y) | (y == hi)
        if not ok.all() and s.get("conditional") and s["method"] == "plot_cdf" and (ID, "conditional-cdf") in core.KNOWN:
            # the listed defect: the cdf divided by the sum of its ordinates
            lo, hi = (v[k] for v in reference(c, s, x, pinned=True))
            tol = 2e-6 * np.where(np.isfinite(hi), abs(hi), 0) + 1e-10
            ok = (y >= lo - tol) & (y <= hi + tol) | np.isnan(lo) & np.isnan(y)
            if ok.all():
                ctx.known.append("conditional-cdf")
        if not ok.all():
            j = int(np.argmin(ok))
            ctx.violate("curve", f"{name}: lane {k} is {y[j]!r} at {x[j]!r}, the curve is {lo[j]!r}")
        if labels is not None and labels[k] is not None and l.get_label() != labels[k]:
            ctx.violate("label", f"{name}: lane {k} has label {l.get_label()!r}, not {labels[k]!r}")
        if (labels is None or labels[k] is None) and not str(l.get_label()).startswith("_") and l.get_label() != "None":
            ctx.violate("label", f"{name}: lane {k} has label {l.get_label()!r} though none was given")
        kw = s["kw"]
        import matplotlib.colors as mc
        for p, get in (("linewidth", l.get_linewidth), ("alpha", l.get_alpha)):
            if p in kw and get() != kw[p]:
                ctx.violate("style", f"{name}: {p} is {get()!r}, asked for {kw[p]!r}")
        if "color" in kw and mc.to_rgba(l.get_color())[:3] != mc.to_rgba(kw["color"])[:3]:
            ctx.violate("style", f"{name}: colour is {l.get_color()!r}, asked for {kw['color']!r}")
        if "colors" in kw and mc.to_rgba(l.get_color())[:3] != mc.to_rgba(kw["colors"][k % 3])[:3]:
            ctx.violate("style", f"{name}: lane {k} has colour {l.get_color()!r}, asked for {kw['colors']!r}")


def check_named(ctx, c, s, ax, name):
    """The axes say what was drawn, and the marks of a probability plot are numbers it was drawn over."""
    disc, cdf = c.spec["cls"] in X.DISCRETE, s["method"] == "plot_cdf"
    if ax.name == "polar" and not disc:
        return
    text = ax.get_ylabel().lower()
    want = {"density": not disc, "probability": disc, "cumulative": cdf, "conditional": bool(s.get("conditional"))}
    bad = [q for q, v in want.items() if (q in text) != v]
    if bad:
        ctx.violate("named", f"{name}: the axes are labelled {ax.get_ylabel()!r} ({bad} expected {[want[q] for q in bad]})")
    if s.get("conditional") and not all(num_in(b, text) for b in c.bounds):
        ctx.violate("named", f"{name}: the label {ax.get_ylabel()!r} does not name the bounds {c.bounds}")
    if not disc or ax.name == "polar":
        return
    ticks = np.sort(np.asarray(ax.get_xticks(), dtype=float))
    xs = np.arange(math.floor(c.bounds[0]), math.floor(c.bounds[1]) + 1)
    if not len(ticks) or not np.isin(np.round(ticks, 6), xs).all():
        ctx.violate("named", f"{name}: marks at {ticks[:4]}.., drawn over {c.bounds}")
    if len(xs) < 12 and len(ticks) != len(xs):
        ctx.violate("named", f"{name}: {len(ticks)} marks for the {len(xs)} values {c.bounds}")


def num_in(v, text):
    import re
    return any(abs(float(t) - float(v)) <= 1e-9 * max(1, abs(float(v))) for t in re.findall(r"-?\d+(?:\.\d+)?(?:e[+-]?\d+)?", text))


def check_contained(ctx, w, k, name):
    """Every finite point of every curve the package drew on axes k lies in its vertical range."""
    if w.fixed[k] or any(w.fixed[j] for j in w.siblings(k)):
        return
    ax = w.axes[k]
    for j in sorted(w.siblings(k)):
        lo, hi = sorted(w.axes[j].get_ylim())
        for l in w.pkg[j]:
            y = np.asarray(l.get_ydata(), dtype=float).ravel()
            y = y[np.isfinite(y) & (y >= 0)]
            if y.size and (y.min() < lo - 1e-9 or y.max() > hi + 1e-9 * max(1, abs(hi))):
                ctx.violate("cut-off", f"{name}: a curve spans [{y.min()!r}, {y.max()!r}] but the axes shows [{lo!r}, {hi!r}]")


def compare(ctx, w, target, name, added=None):
    """All known axes against the record.  target: index the step may add lines to."""
    sib = w.siblings(target) if target is not None else set()
    for k, ax in enumerate(w.axes):
        old = w.lines[k]
        now = list(ax.lines)
        if len(now) < len(old) or any(a is not b.line for a, b in zip(now, old)):
            ctx.violate("disturbed", f"{name}: lines of axes {k} were removed or replaced")
        for j, b in enumerate(old):
            if line_state(b.line) != b.sig:
                ctx.violate("disturbed", f"{name}: line {j} of axes {k} changed: {diff(b.sig, line_state(b.line))}")
        if k != target and len(now) != len(old):
            ctx.violate("disturbed", f"{name}: {len(now) - len(old)} lines appeared on another axes")
        st = ax_state(ax)
        if k != target:
            mask = (3, 4, 10, 11) if k in sib else ()
            bad = [(a, b) for i, (a, b) in enumerate(zip(w.state[k], st)) if a != b and i not in mask]
            if bad:
                ctx.violate("disturbed", f"{name}: axes {k}, not the one drawn on, changed: {bad[:2]}")
        elif st[2] != w.state[k][2] or st[5:10] != w.state[k][5:10] or st[12:15] != w.state[k][12:15]:
            ctx.violate("disturbed", f"{name}: title, legend, scale or other artists of the axes changed: {w.state[k]} -> {st}")


def record(w, k=None):
    for j in range(len(w.axes)):
        w.lines[j] = [Line(l) for l in w.axes[j].lines]
        w.state[j] = ax_state(w.axes[j])


def diff(a, b):
    return [(x if not isinstance(x, bytes) else np.frombuffer(x)[:3], y if not isinstance(y, bytes) else np.frombuffer(y)[:3])
            for x, y in zip(a, b) if x != y][:2]


class LabelFailure(Exception):
    pass


def call_kwargs(c, s, K):
    kind = resolve_kind(s["label"], c, K)
    arg, labels = labels_for(kind, K)
    kw = {}
    for k, v in s["kw"].items():
        kw["color" if k == "colors" else k] = list(v) if k == "colors" else v
    if kind != "none":
        kw["label"] = arg
    if s.get("conditional"):
        kw["conditional"] = True
    if "mark" in s:
        kw["mark"] = s["mark"]
    if "linestyle" in kw and c.spec["cls"] in X.DISCRETE:
        del kw["linestyle"]
    if c.spec["cls"] == "Dirichlet":
        kw.update(samples=s["samples"], random_state=ops.rng_of(s["rs"]))
    return kw, labels, kind


def plot(ctx, w, c, s, n):
    cls = c.spec["cls"]
    K = lanes(c)
    kw, labels, kind = call_kwargs(c, s, K)
    name = f"step {n}: {cls}.{s['method']}"
    brk = s.get("break")
    if brk == "label":
        if K == 1 and cls != "Dirichlet" and False:
            brk = None
        at = s["at"] % K

        def failing(i):
            if i == at:
                raise LabelFailure(f"no name for {i}")
            return f"c{i}"
        kw["label"] = failing
        kw.pop("color", None)
    elif brk == "length":
        if K == 1:
            brk = None
        else:
            kw["label"] = [f"n{i}" for i in range(K + 1 + s["at"])]
            kw.pop("color", None)
    elif brk == "kwarg":
        kw["no_such_property"] = 1
        kw.pop("color", None)
    elif brk == "bounds":
        if cls in X.AUTO_MAX | {"Dirichlet", "BetaNegativeBinomial"}:
            brk = None
    target = None if s["ax"] is None else s["ax"] % len(w.axes)
    if brk == "bounds":
        d = type(c.d)(**copy.deepcopy(X.fields_of(c.d)))
    else:
        d = c.d
    before = X.sig(c.d)
    cur = current_axes()
    known = w.all_axes()
    figs = len(w.plt.get_fignums())
    err, tr, out = None, None, None
    meth = getattr(d, s["method"])
    try:
        ax = None if target is None else w.axes[target]
        if s.get("cut") and not brk:
            t = s["cut"]
            tr = Faults(at=t["at"], exc=EXCS[t["exc"]]("injected by the simulator"), opcodes=t["opcodes"], fresh=t.get("fresh", False))
            with tr:
                out = meth(ax=ax, **kw)
        else:
            out = meth(ax=ax, **kw) if n % 2 or ax is None and n % 3 else (meth(ax, **kw))
    except core.Hang:
        raise
    except BaseException as e:
        err = e
    fired = bool(tr and tr.fired)
    if err is not None and not fired and not brk:
        raise err
    if tr and not fired:
        tr = None
    name += " (interrupted)" if fired else f" (rejected: {brk})" if brk else ""
    # --- the axes the call belongs to
    fresh = [a for a in w.all_axes() if all(a is not b for b in known)]
    if len(fresh) > 1:
        ctx.violate("axes", f"{name}: {len(fresh)} axes were created")
    if target is not None and fresh:
        ctx.violate("axes", f"{name}: an axes was created though one was given")
    if target is None:
        ctx.hit("current")
        if cur is not None and cur[1] is not None:
            if fresh:
                ctx.violate("axes", f"{name}: an axes was created though there is a current one")
            k = w.index(cur[1])
            if k is None:
                k = w.add(cur[1])
        elif fresh:
            k = w.add(fresh[0])
            w.lines[k] = []
            ctx.hit("created-axes")
            if cur is None:
                ctx.hit("created-figure")
            if len(w.plt.get_fignums()) != figs + (cur is None):
                ctx.violate("axes", f"{name}: {len(w.plt.get_fignums()) - figs} figures were created")
            if cur is not None and fresh[0].figure is not cur[0]:
                ctx.violate("axes", f"{name}: drew on a new figure though there is a current one")
        else:
            if err is None:
                ctx.violate("axes", f"{name}: drew on no visible axes")
            k = None
    else:
        k = target
        now = current_axes()
        if now != cur and not (now is not None and cur is not None and now[0] is cur[0] and now[1] is cur[1]):
            ctx.violate("axes", f"{name}: the current axes changed though an axes was given")
    if err is None and not brk and out is not w.axes[k]:
        ctx.violate("axes", f"{name}: returned {out!r}, not the axes drawn on")
    if brk and err is None:
        ctx.violate("accepted", f"{name}: the call was accepted")
    if brk == "label" and not isinstance(err, LabelFailure):
        ctx.violate("rejected", f"{name}: the failure of the label function surfaced as {type(err).__name__}: {err}")
    if brk == "bounds" and not isinstance(err, ValueError):
        ctx.violate("rejected", f"{name}: {type(err).__name__}: {err}")
    if fired and err is not tr.exc:
        ctx.violate("rejected", f"{name}: {type(err).__name__} surfaced instead of the injected exception")
    # --- what it drew
    compare(ctx, w, k, name)
    new = [] if k is None else list(w.axes[k].lines)[len(w.lines[k]):]
    if brk:
        if new:
            ctx.violate("residue", f"{name}: {len(new)} lines were left behind")
        if k is not None and ax_state(w.axes[k]) != w.state[k] and k in w.state:
            ctx.violate("residue", f"{name}: the axes changed: {[(a, b) for a, b in zip(w.state[k], ax_state(w.axes[k])) if a != b]}")
        ctx.fault("rejected-call")
        ctx.hit("rejected-" + brk)
    else:
        check_lines(ctx, c, s, new, labels, name, partial=fired)
        if not fired:
            check_named(ctx, c, s, w.axes[k], name)
        if fired:
            ctx.fault("exception-at-" + ("bytecode" if s["cut"]["opcodes"] else "line"))
            ctx.hit("interrupted")
        else:
            ctx.hit("dirichlet" if cls == "Dirichlet" else s["method"][5:])
            for p, q in (("list", "labels-list"), ("callable", "labels-callable"), ("iter", "labels-iterator")):
                if kind == p:
                    ctx.hit(q)
            if s.get("conditional"):
                ctx.hit("conditional")
            if "colors" in s["kw"]:
                ctx.hit("colors")
            if K > 1:
                ctx.hit("lanes")
            if w.axes[k].name == "polar":
                ctx.hit("polar")
            if len(w.siblings(k)) > 1:
                ctx.hit("shared-y")
            ctx.nontrivial = True
    if X.sig(c.d) != before:
        ctx.violate("input", f"{name}: the distribution was changed by plotting it")
    if k is not None:
        w.pkg[k] += new
        if not brk and not fired:
            check_contained(ctx, w, k, name)
    record(w)
    ctx.log(n, cls, s["method"], kind, "cut" if fired else brk, k, len(new), K)


def run(plan, ctx):
    import random
    w = World(plan)
    if plan["figs"] == "sub":
        ctx.hit("subfigure")
    cs = [Caller(s, ctx) for s in plan["specs"]]
    last = {}
    for n, s in enumerate(plan["steps"]):
        c = cs[s["o"]]
        r = random.Random(s.get("seed", 0))
        k = s["op"]
        cls = c.spec["cls"]
        if k == "plot":
            plot(ctx, w, c, s, n)
            last[s["o"]] = s
            continue
        fields = X.fields_of(c.d)
        if k == "assign":
            f = r.choice(sorted(fields))
            if cls == "Uniform" and f == "low":
                v = -abs(new_value(r, c.spec, "high"))if False else new_value(r, c.spec, "low")
            else:
                v = new_value(r, c.spec, f)
            if cls in ("Hypergeometric",) and f == "N":
                v = new_value(r, c.spec, "N")
            setattr(c.d, f, X.value(v))
            ctx.hit("reassigned")
        elif k == "edit":
            arr = [f for f in sorted(fields) if isinstance(fields[f], np.ndarray) and fields[f].dtype.kind == "f" and fields[f].ndim == 1]
            if arr:
                f = r.choice(arr)
                a = fields[f]
                j = r.randrange(a.size)
                a[j] = pos(r, 0.5, 9) if cls == "Dirichlet" else X.ELEM[cls][f](r)
                ctx.hit("edited")
        elif k == "bounds":
            c.set_bounds(s["b"], s["how"])
            ctx.hit("rebounded")
        elif k == "copy":
            c.d = copy.deepcopy(c.d)
        elif k == "new":
            # another instance of the class: its construction must not disturb the first
            X.build({kk: v for kk, v in c.spec.items() if kk != "bounds"}).set_bounds(0.25, 0.5)
            ctx.hit("constructed")
        else:
            ax = w.axes[s["ax"] % len(w.axes)]
            if k == "external":
                if s.get("what") == "axvline":
                    ax.axvline(0.5, label="truth")
                else:
                    ax.plot([0.2, 0.8], [0.1, r.choice([0.2, 0.9])], label="mine")
                ctx.hit("external")
            elif k == "labels":
                ax.set_title("caller's title")
            elif k == "limits":
                ax.set_ylim(0, 0.37)
                w.fixed[ax._dst] = True
                ctx.hit("fixed-limits")
            elif k == "sca":
                if plan["figs"] == "plt" and w.plt.fignum_exists(ax.figure.number):
                    w.plt.sca(ax)
            elif k == "newfig":
                w.plt.figure()
            elif k == "newax":
                a = w.plt.figure(w.plt.get_fignums()[0]).add_axes([0.1 * (s["ax"] + 1), 0.1, 0.3, 0.3]) if w.plt.get_fignums() else None
                if a is not None:
                    w.add(a)
            elif k == "close":
                w.plt.close("all" if s["seed"] % 3 == 0 else None)
                ctx.hit("closed-figure")
            # the caller's own doings may rescale any axes
            record(w)
            ctx.log(n, k)
            continue
        compare(ctx, w, None, f"step {n}: {k}")
        ctx.log(n, k, X.sig(c.d))
    # --- the same curves on two fresh axes in two orders
    if last:
        order = sorted(last)
        other = order[:]
        random.Random(plan["order"]).shuffle(other)
        if other == order:
            other = order[::-1]
        lims = []
        for o in (order, other):
            from matplotlib.figure import Figure
            ax = Figure().add_subplot()
            seen = []
            for i in o:
                kw, _, _ = call_kwargs(cs[i], last[i], lanes(cs[i]))
                getattr(cs[i].d, last[i]["method"])(ax=ax, **kw)
                lo, hi = ax.get_ylim()
                for l in ax.lines:
                    y = np.asarray(l.get_ydata(), dtype=float).ravel()
                    y = y[np.isfinite(y) & (y >= 0)]
                    if y.size and (y.min() < lo - 1e-9 or y.max() > hi + 1e-9 * max(1, abs(hi))):
                        ctx.violate("cut-off", f"a curve spans [{y.min()!r}, {y.max()!r}] but the axes shows [{lo!r}, {hi!r}] after "
                                    f"{[cs[j].spec['cls'] for j in o]}")
            lims.append(ax.get_ylim())
        if len(order) > 1:
            ctx.hit("order-compared")
            if not np.allclose(lims[0], lims[1], rtol=1e-9, atol=1e-12):
                ctx.violate("order", f"vertical range {lims[0]} for {[cs[i].spec['cls'] for i in order]} but {lims[1]} for "
                            f"{[cs[i].spec['cls'] for i in other]}")


def shrink(plan):
    for c in core.list_drops(plan["steps"]):
        if c:
            yield dict(plan, steps=c)
    if len(plan["specs"]) > 1:
        used = {s["o"] for s in plan["steps"]}
        top = max(used) + 1 if used else 1
        if top < len(plan["specs"]):
            yield dict(plan, specs=plan["specs"][:top])
    if len(plan["axes"]) > 1:
        yield dict(plan, axes=plan["axes"][:-1])
    for k, s in enumerate(plan["steps"]):
        if s["op"] == "plot":
            for f, v in (("label", "none"), ("kw", {}), ("cut", None), ("break", None), ("conditional", False)):
                if s.get(f) not in (v, None):
                    yield dict(plan, steps=plan["steps"][:k] + [dict(s, **{f: v})] + plan["steps"][k + 1:])
    for f, v in (("sharey", False), ("figs", "own")):
        if plan[f] != v:
            yield dict(plan, **{f: v})
    for k, a in enumerate(plan["axes"]):
        if a["polar"]:
            yield dict(plan, axes=plan["axes"][:k] + [dict(a, polar=False)] + plan["axes"][k + 1:])


def known_plan(kid):
    assert kid == "conditional-cdf"
    return {"specs": [{"cls": "Binomial", "shape": [], "fields": {"n": 10, "p": 0.25}, "auto": False, "bounds": [3, 7], "set": "set_bounds"}],
            "axes": [{"fig": 0, "polar": False}], "sharey": False, "figs": "own", "order": 0,
            "steps": [{"op": "plot", "o": 0, "ax": 0, "label": "none", "kw": {}, "method": "plot_cdf", "conditional": True}]}
