"""Writes MANIFEST.json.  A property is claimed once dst/props/<id>.py exists."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = "deterministic simulation with fault injection: "
T = {
    "C01": ("seeded delivery histories (cuts, reorderings, merges, redelivery after crash/restore, silent lanes) of every model, "
            "checked against exact Bayes from an independent reference",
            "Posteriors of seeded random histories equal an independently written exact posterior to a stated relative tolerance. "
            "Trusts the reference (dst/families.py, dst/refdist.py) and numpy/scipy/mpmath-style special functions."),
    "C02": ("seeded arrival orders with duplicates, cuts and restores; product of one-step predictives against the exact marginal "
            "likelihood",
            "Chain rule of the predictives checked along seeded orders and cuts, against an independent log marginal likelihood."),
    "C03": ("an exception injected at a seeded instant (line, opcode, allocation, user callback, user number) of every kind of call; "
            "inputs and earlier beliefs compared bit for bit; call repeated",
            "Every public kind of call, at seeded interruption points. Instants inside C code of numpy/scipy are not interrupted."),
    "C04": ("seeded cooperative scheduler switching real threads at every line/opcode of the package; each call compared bit for bit "
            "with its result alone",
            "One thread runs at a time; switch points are the trace events of the package's own code (lines or opcodes) and the "
            "callbacks it makes. C code of numpy/scipy/matplotlib runs atomically."),
    "C05": ("twin runs with seeded ambient noise, stalls, other consumers and call-order permutations; draws compared bit for bit with "
            "fresh streams; stream accounting",
            "Draws must be equal bit for bit between twins; independence within a call is checked by stream accounting."),
    "C06": ("populations of self-simulated worlds with seeded loss, delay, reordering and a Thompson agent; calibration by rank "
            "statistics with a confirmation stage",
            "Statistical, with fixed seeds (hence repeatable): an alarm needs p<1e-4 on the first population and p<1e-7 on an "
            "independent six times larger one. Small biases below that power are not seen."),
    "C07": ("seeded lane histories with silent and corrupt lanes and indexing; each lane against its scalar twin",
            "Lanes are compared with scalar computation to 1e-9 relative."),
    "C08": ("simulated late binding: inputs are promises resolved in a seeded order, re-bound and re-evaluated, with faults on early "
            "look-ups; results against eager numbers",
            "A promise raises on any attempt to look at its value; results are compared with eager floats to 1e-10 relative."),
    "C09": ("seeded misrouting of beliefs to every model and predictive in running histories; tripwire data; state compared and the "
            "history carried on",
            "All pairs of function and wrong family are reached over the seeded runs; counts are in the evidence."),
    "C10": ("seeded object histories (assign, edit in place, set bounds, index, evaluate, save, crash, restore, copy) against a plain "
            "reference record of current parameters",
            "Every read after every step is compared with an object freshly built from the reference record."),
    "C11": ("several plotters share axes in a seeded order with rejected and interrupted calls; drawn data against the reference "
            "density; order-independence of limits",
            "Reads back the data of the drawn artists (Agg backend); pixels are not compared."),
    "C12": ("seeded merge trees over workers with lost, redone and duplicated-then-discarded work; result against the reference law of "
            "the sum",
            "Compared with an independently computed law (convolution of reference mass functions / closed-form parameters)."),
    "C13": ("full snapshot of ambient process state around seeded histories of completed, rejected and interrupted calls under varied "
            "ambient settings",
            "Covers the listed pieces of process state; files are compared in the working, home and temporary directories."),
    "C17": ("a simulated service repeats periods of operations with ever new values, rejected and interrupted calls, short-lived threads "
            "and restores; weak references, live memory, belief size and executed lines watched from period to period",
            "Histories of 12 to 1200 periods. Dropped objects must be released; growth means growth in every part of a further long look, "
            "so bounded tables are allowed. Raw buffers inside numpy/scipy are seen through their owners only."),
}
NA = {
    "C14": "A constructor or conversion is a pure, single-step function of its numeric inputs: no schedule, time, I/O, fault or history "
           "takes part, so seeded simulation would decide nothing beyond evaluating formulas. (Their purity, interruption, late binding "
           "and ambient effects are covered by C03, C04, C08 and C13.)",
    "C15": "Normalisation of a density is a pure numeric identity of one object: no schedule, fault, crash point or history takes part. "
           "(Densities along histories are covered by C02, C07, C10 and C11.)",
    "C16": "A static property of the package's metadata, annotations and import statements: nothing is executed over time that a "
           "simulator could schedule or disturb.",
}


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        if os.path.exists(os.path.join(ROOT, "dst", "props", p.lower() + ".py")):
            checks.append({"property": p, "quick_cmd": f"bash check.sh {p}", "thorough_cmd": f"bash check.sh {p} --tier thorough",
                           "evidence_file": f"evidence/{p}.json", "technique": DST + T[p][0], "level": "exploration",
                           "level_note": T[p][1]})
        else:
            na.append({"property": p, "reason": NA.get(p, "check not built yet")})
    out = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks: every source of nondeterminism already has a seam (random_state arguments, callables, axes, user numbers, "
                    "sys.settrace). bash replay.sh <file> re-runs a replay file."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


main()
