"""C28: the plots of a run show its losses."""

from __future__ import annotations

import contextlib
import math
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from vlib import nepsrun, workers
from vlib.core import Facet, expect, seed_everything, sut

ASSUMPTIONS = [
    "plots are judged by the data of their lines and points, not by their looks",
    "runs that are averaged have the same costs on the horizontal axis",
    "losses are finite; configurations are evaluated in the order of their numbers",
]

losses = st.integers(-64, 64).map(lambda i: i / 8)


class Script:
    """An optimizer that proposes what it is told."""

    def __init__(self, proposals):
        self.proposals = iter(proposals)

    def ask(self, trials, budget_info):
        from neps.optimizers.base_optimizer import SampledConfig

        return SampledConfig(*next(self.proposals))


def write(root, entries):
    """A run directory with these trials."""
    state = workers.new_state(root)
    clock = 1000.0
    for e in entries:
        opt = Script([(e["id"], e.get("config", {"a": 0.5}), e.get("previous"))])
        t = state.sample_trial(optimizer=opt, worker_id="w")
        if e["state"] == "pending":
            continue
        t.set_evaluating(time_started=clock, worker_id="w")
        state.put_updated_trial(t)
        if e["state"] == "evaluating":
            continue
        clock += 1.0
        ok = e["state"] == "success"
        r = t.set_complete(
            report_as=e["state"], time_end=clock, loss=e["loss"] if ok else None, cost=1.0,
            learning_curve=None, err=None if ok else ValueError("boom"), tb=None,
            extra={"info_dict": e["info"]} if ok and e.get("info") else {}, evaluation_duration=0.1)
        state.report_trial_evaluation(t, r, worker_id="w")


@contextlib.contextmanager
def figures():
    """Keep the figures that are saved meanwhile."""
    import matplotlib

    matplotlib.use("Agg", force=True)
    from matplotlib import pyplot as plt
    from matplotlib.figure import Figure

    kept, original = [], Figure.savefig

    def savefig(self, fname, *args, **kw):
        kept.append((self, Path(fname)))
        return original(self, fname, *args, **kw)

    Figure.savefig = savefig
    try:
        yield kept
    finally:
        Figure.savefig = original
        plt.close("all")


# --------------------------------------------------------------------------- incumbents
@st.composite
def run_of(draw, *, key, fails=True):
    """The trials of one run."""
    n = draw(st.integers(1, 12))
    out = []
    for i in range(n):
        s = "success"
        if fails:
            s = draw(st.sampled_from(["success"] * 5 + ["crashed", "pending", "evaluating"]))
        out.append({"id": str(i + 1), "state": s, "loss": draw(losses),
                    "info": {key: draw(st.integers(1, 9))} if key else None})
    if not any(e["state"] == "success" for e in out):
        out[0]["state"] = "success"
    return out


@st.composite
def continued_run(draw, *, key):
    """Trials that continue others, which count only with what they add."""
    out, level = [], {}
    for _ in range(draw(st.integers(1, 10))):
        c = draw(st.integers(0, 3))
        r, fid = level.get(c, (-1, 0))
        prev = f"{c}_{r}" if r >= 0 else None
        level[c] = (r + 1, fid + draw(st.integers(1, 3)))
        out.append({"id": f"{c}_{r + 1}", "state": "success", "loss": draw(losses),
                    "previous": prev, "info": {key: level[c][1]}})
    return out


@st.composite
def curve_cases(draw):
    mode = draw(st.sampled_from(["one", "one", "one", "key", "continued", "many", "many"]))
    case = {"mode": mode, "log_x": draw(st.booleans()), "log_y": draw(st.booleans()),
            "x_range": draw(st.sampled_from([None, None, (1, 4), (2, 8)])),
            "filename": draw(st.sampled_from([None, "plot"])),
            "extension": draw(st.sampled_from(["png", "png", "pdf"])), "key": None,
            "as_path": draw(st.booleans()), "seed": draw(st.integers(0, 10**6))}
    if mode == "one":
        case["runs"] = {"": draw(run_of(key=None))}
    elif mode == "key":
        case["key"] = draw(st.sampled_from(["fidelity", "time"]))
        case["runs"] = {"": draw(run_of(key=case["key"], fails=False))}
    elif mode == "continued":
        case["key"] = draw(st.sampled_from(["fidelity", "time"]))
        case["runs"] = {"": draw(continued_run(key=case["key"]))}
    else:
        case["benchmarks"] = draw(st.lists(st.sampled_from("ABCDE"), min_size=1, max_size=5, unique=True))
        case["algorithms"] = draw(st.lists(st.sampled_from(["rs", "hb", "x y"]), min_size=1, max_size=2, unique=True))
        n = draw(st.integers(1, 3))
        case["runs"] = {
            f"benchmark={b}/algorithm={a}/seed={i}/neps_root_directory": draw(run_of(key=None, fails=False))
            for b in case["benchmarks"] for a in case["algorithms"] for i in range(n)}
        case["missing"] = draw(st.sampled_from([None] * 8 + ["benchmark", "algorithm"]))
    return case


def points(entries, key, continued):
    """(position, best loss so far) of the trials that have ended."""
    done = [e for e in entries if e["state"] in ("success", "crashed")]
    cost = {e["id"]: e["info"][key] if key else 1 for e in done}
    xs, ys, x, best = [], [], 0.0, math.inf
    # the order of numbers; continued ones have a single digit each
    for e in sorted(done, key=lambda e: (len(e["id"]), e["id"])):
        c = cost[e["id"]]
        if continued and e.get("previous"):
            c -= cost[e["previous"]]
        x += c
        if e["state"] == "success":
            best = min(best, e["loss"])
        xs.append(x)
        ys.append(best)
    if key == "fidelity":
        top = max(cost.values())
        xs = [v / top for v in xs]
    return xs, ys


def value_at(run, x):
    """The incumbent at a position: shorter runs keep their last one."""
    xs, ys = run
    i = sum(v <= x for v in xs)
    return ys[max(0, i - 1)]


def check_line(line, band, runs, case, what):
    x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
    drawn = [(float(a), float(b)) for a, b in zip(x, y) if math.isfinite(a)]
    shown = dict(drawn)
    lo, hi = case["x_range"] or (-math.inf, math.inf)
    want = sorted({a for xs, _ in runs for a in xs if lo <= a <= hi})
    expect(list(x) == sorted(x), f"{what}: positions {list(x)} go back")
    for a in want:
        got = [b for p, b in drawn if math.isclose(p, a, rel_tol=1e-9)]
        v = float(np.mean([value_at(r, a) for r in runs]))
        # the ends of the range are drawn once more, with the value beside them
        right = [math.isclose(g, v, rel_tol=1e-9, abs_tol=1e-9)
                 or not math.isfinite(v) and not math.isfinite(g) for g in got]
        expect(right and (any(right) if a in (lo, hi) else all(right)),
               f"{what}: shows {got} at {a}, the best loss is {v} in {runs}")
    for p in shown:
        expect(any(math.isclose(p, a, rel_tol=1e-9) for a in want) or p in (lo, hi, *(math.inf,)),
               f"{what}: a point at {p}, evaluations are at {want}")
    if hi in shown and case["x_range"] and hi >= max(a for xs, _ in runs for a in xs):
        v = float(np.mean([r[1][-1] for r in runs]))
        expect(math.isclose(shown[hi], v, abs_tol=1e-9) or not math.isfinite(v),
               f"{what}: ends with {shown[hi]}, the best loss is {v}")
    if len(runs) > 1 and all(math.isfinite(v) for _, ys in runs for v in ys) and band is not None:
        verts = np.concatenate([p.vertices for p in band.get_paths()])
        for a in want:
            vals = [value_at(r, a) for r in runs]
            err = np.std(vals, ddof=1) / math.sqrt(len(vals))
            at = verts[np.isclose(verts[:, 0], a)][:, 1]
            if a in (lo, hi):
                continue
            expect(math.isclose(at.max(), np.mean(vals) + err, abs_tol=1e-6)
                   and math.isclose(at.min(), np.mean(vals) - err, abs_tol=1e-6),
                   f"{what}: the band at {a} is {at.min()} to {at.max()}, the losses are {vals}")


def files(base):
    return {str(p.relative_to(base)): p.stat().st_size for p in Path(base).rglob("*")
            if p.is_file() and "lock" not in p.name}


def curve(case, ctx):
    """neps.plot shows the best loss over the evaluations of every run."""
    import neps

    base = ctx.scratch() / "base"
    with sut("creating the runs"):
        for rel, entries in case["runs"].items():
            write(base / rel, entries)
    before = files(base)
    kw = {"log_x": case["log_x"], "log_y": case["log_y"], "extension": case["extension"],
          "x_range": case["x_range"], "dpi": 30}
    if case["filename"]:
        kw["filename"] = case["filename"]
    if case["key"]:
        kw["key_to_extract"] = case["key"]
    if case["mode"] == "continued":
        kw["consider_continuations"] = True
    benchmarks, algorithms = ["example"], ["neps"]
    if case["mode"] == "many":
        benchmarks, algorithms = list(case["benchmarks"]), list(case["algorithms"])
        kw.update(scientific_mode=True, benchmarks=benchmarks, algorithms=algorithms)
        if case["missing"] == "benchmark":
            kw["benchmarks"] = [*benchmarks, "missing"]
        if case["missing"] == "algorithm":
            kw["algorithms"] = [*algorithms, "missing"]
    ctx.label(case["mode"])
    with figures() as kept:
        if case.get("missing"):
            try:
                neps.plot(base, **kw)
            except FileNotFoundError:
                ctx.label("missing")
                expect(files(base) == before, "a refused plot left files")
                return
            expect(False, f"a plot with a missing {case['missing']}")
        with sut(f"neps.plot {kw}"):
            neps.plot(base if case["as_path"] else str(base), **kw)
        expect(len(kept) == 1, f"{len(kept)} figures")
        fig, path = kept[0]
        name = f"{case['filename'] or 'incumbent_trajectory'}.{case['extension']}"
        expect(path.resolve() == (base / name).resolve(), f"the plot is in {path}")
        head = (base / name).read_bytes()[:4]
        expect(head == {"png": b"\x89PNG", "pdf": b"%PDF"}[case["extension"]], f"the file starts with {head}")
        axes = fig.axes
        for i, b in enumerate(benchmarks):
            ax = axes[i]
            expect(len(ax.lines) == len(algorithms), f"{len(ax.lines)} lines in the plot of {b}")
            if case["mode"] == "many":
                expect(ax.get_title() == b, f"the plot of {b} has the title {ax.get_title()}")
            expect((ax.get_xscale() == "log") == case["log_x"]
                   and (ax.get_yscale() != "linear") == case["log_y"],
                   f"scales {ax.get_xscale()} and {ax.get_yscale()} with {kw}")
            for j, a in enumerate(algorithms):
                expect(ax.lines[j].get_label() == a, f"line {j} is labelled {ax.lines[j].get_label()}")
                runs = [points(entries, case["key"], case["mode"] == "continued")
                        for rel, entries in case["runs"].items()
                        if rel.startswith(f"benchmark={b}/algorithm={a}/") or not rel]
                band = ax.collections[j] if len(ax.collections) == len(algorithms) else None
                check_line(ax.lines[j], band, runs, case, f"{b}, {a}, {case['mode']}")
    after = files(base)
    after.pop(name)
    expect(after == before, f"neps.plot changed {set(after.items()) ^ set(before.items())}")
    if sum(len(e) for e in case["runs"].values()) >= 3:
        ctx.nontrivial(repr(case))


# --------------------------------------------------------------------------- landscape
@st.composite
def landscape_cases(draw):
    out, level, first = [], {}, draw(st.integers(0, 1))
    key = draw(st.sampled_from(["epochs", "budget"]))
    for _ in range(draw(st.integers(1, 12))):
        c = draw(st.integers(0, 4))
        r = level.get(c, first - 1) + 1
        out.append({"id": f"{c}_{r}", "state": "success", "loss": draw(losses),
                    "previous": f"{c}_{r - 1}" if c in level else None,
                    "config": {"a": draw(st.integers(0, 8)) / 8, key: 1 + r}})
        level[c] = r
    return {"entries": out, "key": key, "first": first, "scatter": draw(st.booleans()),
            "where": draw(st.booleans()), "seed": 0}


def landscape(case, ctx):
    """The landscape shows every evaluation at its step and loss, joined by configuration."""
    from neps.plot.plot3D import Plotter3D
    from neps.status.status import post_run_csv

    base = ctx.scratch()
    root = base / "run"
    with sut("creating the run"):
        write(root, case["entries"])
        post_run_csv(root)
    with figures() as kept, sut("plot3D"):
        p = Plotter3D(run_path=root, fidelity_key=case["key"], scatter=case["scatter"])
        p.plot3D(save_path=base / "out" if case["where"] else None)
        expect(len(kept) == 1, f"{len(kept)} figures")
        fig, path = kept[0]
    want_path = (base / "out" if case["where"] else root) / "Plot3D_freeze_thaw.png"
    expect(path.resolve() == want_path.resolve() and want_path.read_bytes()[:4] == b"\x89PNG",
           f"the plot is in {path}")
    steps: dict = {}
    # steps are counted from one
    shift = 1 if min(int(e["id"].split("_")[1]) for e in case["entries"]) == 0 else 0
    for e in case["entries"]:
        c, r = map(int, e["id"].split("_"))
        steps.setdefault(c, []).append((r + shift, e["loss"]))
    lines = [sorted(v) for v in steps.values() if len(v) > 1]
    single = [v[0] for v in steps.values() if len(v) == 1]
    ax = next(a for a in fig.axes if a.name != "3d" and a.get_xlabel() == case["key"])
    got_lines, got_single = [], []
    for coll in ax.collections:
        if hasattr(coll, "get_segments"):
            segs = coll.get_segments()
            pts = [tuple(segs[0][0])] + [tuple(s[-1]) for s in segs]
            got_lines.append(pts)
        else:
            got_single += [tuple(o) for o in coll.get_offsets()]
    expect(sorted(got_lines) == sorted(lines), f"lines {got_lines}, learning curves {lines}")
    expect(sorted(got_single) == (sorted(single) if case["scatter"] else []),
           f"points {got_single}, single evaluations {single}")
    if lines:
        ctx.nontrivial(repr(case))
        ctx.label("lines")


FACETS = [
    Facet("curve", curve_cases, curve, quick=90, thorough=1500, shards=5,
          rule="at least three trials are plotted"),
    Facet("landscape", landscape_cases, landscape, quick=40, thorough=600, shards=3,
          rule="a configuration has several evaluations"),
]
