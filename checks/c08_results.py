"""C08: what an evaluation returns is what is stored, shown and kept for the searcher."""

from __future__ import annotations

import collections
import copy
import math
import time
import types

from hypothesis import strategies as st

from vlib import nepsrun, records
from vlib.core import Facet, Violation, expect, seed_everything, sut

ASSUMPTIONS = ["one worker; the values of a result are numbers, strings, lists, dicts, arrays or tensors"]

NUM = ["float", "int", "np64", "np32", "torch", "npint", "zero-d"]


@st.composite
def numbers(draw, finite=False):
    kind = draw(st.sampled_from(["float", "float", *NUM]))
    if kind in ("int", "npint"):
        v = draw(st.integers(-1000, 10**6))
    else:
        v = draw(st.floats(allow_nan=not finite, allow_infinity=not finite, width=32))
    return (kind, v)


def build_num(n):
    import numpy as np
    import torch

    kind, v = n
    return {
        "float": lambda: float(v), "int": lambda: int(v), "np64": lambda: np.float64(v),
        "np32": lambda: np.float32(v), "torch": lambda: torch.tensor(v, dtype=torch.float64),
        "npint": lambda: np.int64(v), "zero-d": lambda: np.array(float(v)),
    }[kind]()


@st.composite
def curves(draw):
    vals = draw(st.lists(st.floats(width=32, allow_nan=False), max_size=4))
    return (draw(st.sampled_from(["list", "tuple", "np", "torch"])), vals)


def build_curve(c):
    import numpy as np
    import torch

    kind, v = c
    return {"list": list, "tuple": tuple, "np": lambda x: np.array(x, dtype=float),
            "torch": lambda x: torch.tensor(x, dtype=torch.float64)}[kind](v)


@st.composite
def results(draw):
    if draw(st.integers(0, 3)) == 0:
        return {"kind": "number", "loss": draw(numbers())}
    r = {"kind": "dict", "loss": draw(numbers()), "type": draw(st.sampled_from(["dict", "ordered", "proxy"]))}
    if draw(st.booleans()):
        r["cost"] = draw(numbers())
    if draw(st.integers(0, 2)) == 0:
        r["learning_curve"] = draw(curves())
    info = draw(st.sampled_from([None, None, "plain", "curve", "both"]))
    if info is not None:
        d = {}
        if info != "curve":
            d = draw(st.dictionaries(records.texts().filter(lambda s: s != "learning_curve"),
                                     records.plain(3), max_size=2))
        r["info"] = (d, draw(curves()) if info != "plain" else None)
    r["extra"] = draw(st.one_of(st.just({}), st.dictionaries(
        records.texts().filter(lambda s: s not in ("loss", "cost", "info_dict", "learning_curve")),
        records.plain(3), max_size=2)))
    return r


def build(r):
    if r["kind"] == "number":
        return build_num(r["loss"])
    d = {"loss": build_num(r["loss"])}
    if "cost" in r:
        d["cost"] = build_num(r["cost"])
    if "learning_curve" in r:
        d["learning_curve"] = build_curve(r["learning_curve"])
    if "info" in r:
        info, curve = r["info"]
        d["info_dict"] = copy.deepcopy(info)
        if curve is not None:
            d["info_dict"]["learning_curve"] = build_curve(curve)
    d.update(copy.deepcopy(r["extra"]))
    return {"dict": dict, "ordered": collections.OrderedDict, "proxy": types.MappingProxyType}[r["type"]](d)


def expected(r):
    """loss, cost, learning curve and extra of the report."""
    loss = float(r["loss"][1])
    if r["kind"] == "number":
        return loss, None, [loss], {}
    cost = float(r["cost"][1]) if "cost" in r else None
    extra = dict(r["extra"])
    curve = None
    if "info" in r:
        info, c = r["info"]
        extra["info_dict"] = dict(info)
        if "learning_curve" not in r:
            curve = c
        elif c is not None:
            extra["info_dict"]["learning_curve"] = [float(v) for v in c[1]]
    if "learning_curve" in r:
        curve = r["learning_curve"]
    return loss, cost, [loss] if curve is None else [float(v) for v in curve[1]], extra


def frozen(x):
    return repr(dict(x) if isinstance(x, types.MappingProxyType) else x)


@st.composite
def cases(draw):
    return {
        "results": draw(st.lists(results(), min_size=1, max_size=4)),
        "reuse": draw(st.booleans()), "seed": draw(st.integers(0, 10**6)),
        "total": draw(st.integers(1, 5)),
    }


def space():
    from neps.search_spaces import ConstantParameter

    return {**nepsrun.simple_space(), "k": ConstantParameter("fixed")}


def run(case, root, values):
    import neps

    seen = []

    def run_pipeline(a, b, c, k):
        i = len(seen)
        v = values(i)
        seen.append(({"a": a, "b": b, "c": c, "k": k}, v, frozen(v), time.time()))
        return v

    seed_everything(case["seed"])
    neps.run(run_pipeline=run_pipeline, root_directory=root, pipeline_space=space(),
             searcher="random_search", max_evaluations_total=case["total"], post_run_summary=False)
    return seen


def stored(case, ctx):
    from neps.status.status import get_summary_dict, status

    root = ctx.scratch() / "root"
    rs = case["results"]
    kept = [build(r) for r in rs]
    with sut("neps.run"):
        seen = run(case, root, lambda i: kept[i % len(kept)] if case["reuse"] else build(rs[i % len(rs)]))
    expect(len(seen) == case["total"], f"{len(seen)} evaluations instead of {case['total']}")
    for i, (_, v, before, _) in enumerate(seen):
        expect(frozen(v) == before, f"the result of evaluation {i} was {before}, now it is {frozen(v)}")
    with sut("reading the results"):
        trials = nepsrun.read_trials(root)
        summary = get_summary_dict(root, add_details=True)
        prev, pending = status(root, print_summary=False)
    expect(len(trials) == len(seen), f"{len(trials)} trials for {len(seen)} evaluations")
    expect(not pending, f"pending after the run: {pending}")
    byorder = sorted(trials.values(), key=lambda t: t.metadata.time_sampled)
    last = 0.0
    for i, t in enumerate(byorder):
        cfg, _, _, now = seen[i]
        loss, cost, curve, extra = expected(rs[i % len(rs)])
        expect(records.same(dict(t.config), cfg),
               lambda: f"trial {t.id} was evaluated with {cfg}, stored is {dict(t.config)}")
        r = t.report
        expect(t.state.value == "success" and r is not None and r.reported_as == "success",
               f"trial {t.id} is {t.state}")
        for name, a, b in (("loss", r.loss, loss), ("cost", r.cost, cost),
                           ("learning curve", r.learning_curve, curve), ("rest", dict(r.extra), extra)):
            expect(records.same(a, b), lambda: f"the {name} of {t.id} is {a!r}, returned was {b!r}")
        expect(r.err is None and r.tb is None, f"{t.id} has an error {r.err}")
        m = t.metadata
        expect(m.time_sampled <= m.time_started <= now <= m.time_end, f"times of {t.id}: {m}, evaluated {now}")
        expect(last <= m.time_sampled, f"{t.id} was sampled before the previous evaluation ended")
        last = m.time_end
        expect(m.evaluation_duration == r.evaluation_duration and 0 <= r.evaluation_duration,
               f"durations of {t.id}: {m.evaluation_duration}, {r.evaluation_duration}")
        expect(m.sampling_worker_id == m.evaluating_worker_id, f"workers of {t.id}: {m}")
        for where, res in (("summary", summary["previous_results"]), ("status", prev)):
            expect(t.id in res, f"{t.id} is missing in the {where}")
            e = res[t.id]
            expect(records.same(dict(e.config), cfg), f"{where}: config of {t.id} is {e.config}")
            expect(records.same(e.loss, loss), f"{where}: loss of {t.id} is {e.loss}, not {loss}")
            expect(records.same(e.result["cost"], cost), f"{where}: cost of {t.id} is {e.result['cost']}")
            info = extra.get("info_dict", {})
            lc = info.get("learning_curve", curve)
            expect(records.same(e.result["info_dict"]["learning_curve"], lc),
                   lambda: f"{where}: learning curve of {t.id} is {e.result['info_dict']}, not {lc}")
            for k, v in extra.items():
                if k != "info_dict":
                    expect(records.same(e.result[k], v), f"{where}: {k} of {t.id} is {e.result[k]!r}")
            for k, v in info.items():
                expect(records.same(e.result["info_dict"][k], v), f"{where}: {k} of {t.id}")
    ctx.nontrivial(any(r["kind"] == "dict" and (r["extra"] or "info" in r) for r in rs[:case["total"]]))
    ctx.label("reused" if case["reuse"] else "new", *{r["kind"] for r in rs})


INVALID = {
    "no loss": lambda: {"cost": 1.0},
    "empty": lambda: {},
    "none": lambda: None,
    "loss none": lambda: {"loss": None},
    "text": lambda: "good",
    "loss text": lambda: {"loss": "good"},
    "list": lambda: [1.0, 2.0],
    "loss list": lambda: {"loss": [0.5, 1.0]},
    "cost text": lambda: {"loss": 1.0, "cost": "cheap"},
    "curve text": lambda: {"loss": 1.0, "learning_curve": ["a"]},
    "complex": lambda: 1j,
}


@st.composite
def invalid_cases(draw):
    return {"good": draw(st.integers(0, 2)), "what": draw(st.sampled_from(sorted(INVALID))),
            "seed": draw(st.integers(0, 10**6)), "total": 4}


def invalid(case, ctx):
    root = ctx.scratch() / "root"
    n = case["good"]
    try:
        seen = run(case, root, lambda i: 0.5 if i < n else INVALID[case["what"]]())
    except Exception as e:  # noqa: BLE001
        msg = str(e)
    else:
        raise Violation(f"{case['what']} is accepted as result: {len(seen)} evaluations")
    expect(msg, "no message")
    with sut("reading the results"):
        trials = nepsrun.read_trials(root)
    good = [t for t in trials.values() if t.report is not None and t.state.value == "success"]
    expect(len(good) == n, f"{len(good)} successes of {n} valid results, then {case['what']}")
    expect(all(t.report.loss == 0.5 and not math.isnan(t.report.loss) for t in good), "other losses")
    ctx.nontrivial(True)
    ctx.label(case["what"])


FACETS = [
    Facet("stored", cases, stored, 200, 6000, 6, rule="a result with further values"),
    Facet("invalid", invalid_cases, invalid, 40, 400, 2, rule="every case"),
]
