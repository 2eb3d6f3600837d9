"""C18: the grid of a space is complete and grid search visits every point of it exactly once."""

from __future__ import annotations

import itertools
import math

from hypothesis import strategies as st

from vlib import spaces
from vlib.core import Facet, expect, seed_everything, sut


@st.composite
def cases(draw):
    spec = draw(spaces.space_specs(max_size=4, fidelity="maybe"))
    return {"spec": spec, "size": draw(st.integers(1, 6)), "ends": draw(st.booleans())}


def card(spec, size):
    n = 1
    for kind, d in spec.values():
        n *= 1 if kind == "const" else len(d["choices"]) if kind == "cat" else size
    return n


def key(cfg):
    return tuple((k, type(v).__name__, v) for k, v in sorted(cfg.items()))


def grid(case, ctx):
    spec, size, ends = case["spec"], case["size"], case["ends"]
    if card(spec, size) > 3000:
        return
    space = spaces.build(spec)
    with sut("get_search_space_grid"):
        out = space.get_search_space_grid(size_per_numerical_hp=size, include_endpoints=ends)
        cfgs = [spaces.values_of(c) for c in out]
        params = {k: space[k].grid(size=size, include_endpoint=ends)
                  for k, (kind, _) in spec.items() if kind in ("float", "int")}
    for c in cfgs:
        spaces.expect_in_space(spec, c, "grid")
    per = {}
    for k, (kind, d) in spec.items():
        if kind == "const":
            want = [d["value"]]
        elif kind == "cat":
            want = list(d["choices"])
        else:
            # at most `size` points, evenly spread on the scale of the parameter
            vals = sorted({c[k] for c in cfgs})
            expect(1 <= len(vals) <= size, f"{k}: {len(vals)} points for a grid of size {size}")
            expect(vals[0] == d["lower"] or (kind == "float" and math.isclose(vals[0], d["lower"], rel_tol=1e-12)),
                   f"{k}: the grid starts at {vals[0]}, not {d['lower']}")
            if ends and size > 1:
                expect(vals[-1] == d["upper"] or (kind == "float" and math.isclose(vals[-1], d["upper"], rel_tol=1e-12)),
                       f"{k}: the grid ends at {vals[-1]}, not {d['upper']}")
            us = [spaces.normalize(kind, d, v) for v in vals]
            if kind == "float":
                span = (d["upper"] - d["lower"])
                well = size * 1e-9 * max(abs(d["lower"]), abs(d["upper"])) < span or d["log"]
                if well:
                    expect(len(vals) == size, f"{k}: {len(vals)} points, not {size}")
                    step = 1 / ((size - 1) if ends else size) if size > 1 else 0
                    for i, u in enumerate(us):
                        expect(abs(u - i * step) < 1e-6, f"{k}: point {i} at {u}, not {i * step}")
            elif not d["log"]:
                n = d["upper"] - d["lower"] + 1
                if size > n and ends:
                    expect(len(vals) == n, f"{k}: {len(vals)} of {n} integers")
                if size > 1:
                    gap = max([b - a for a, b in zip(vals, vals[1:])] or [0])
                    expect(gap <= n / (size - 1) + 1.01, f"{k}: gap of {gap} in {vals}")
            expect(
                sorted(set(params[k])) == vals,
                f"{k}: the grid of the parameter is {params[k]}, of the space {vals}",
            )
            want = vals
        per[k] = want
    names = sorted(per)
    full = {key(dict(zip(names, combo))) for combo in itertools.product(*(per[n] for n in names))}
    got = [key(c) for c in cfgs]
    expect(len(set(got)) == len(got), f"the grid has duplicates: {len(got)} points, {len(set(got))} distinct")
    expect(set(got) == full, f"the grid has {len(got)} points, the full product {len(full)}")
    ctx.nontrivial(len(full) > 3)
    ctx.label(f"size={size}")


# ------------------------------------------------------------------ grid search


@st.composite
def search_cases(draw):
    spec = draw(spaces.space_specs(max_size=3, fidelity="never"))
    return {
        "spec": spec,
        "size": draw(st.integers(2, 4)),
        "seed": draw(st.none() | st.integers(0, 99)),
        "batches": draw(st.lists(st.integers(1, 12), min_size=1, max_size=6)),
        "fail": draw(st.sets(st.integers(0, 30), max_size=3)),
        "noise": draw(st.integers(0, 10**6)),
    }


def full_set(space, size):
    return {key(spaces.values_of(c)) for c in space.get_search_space_grid(size_per_numerical_hp=size)}


def search(case, ctx):
    """The asks of one run, each by a new optimizer as after a restart, between other random draws."""
    import random

    from neps.optimizers.grid_search.optimizer import GridSearch
    from neps.state.trial import Trial

    spec, size = case["spec"], case["size"]
    if card(spec, size) > 120:
        return
    space = spaces.build(spec)
    full = full_set(space, size)
    trials = {}
    seen = []
    seed_everything(case["noise"])
    opt = None
    i = 0
    plan = list(case["batches"])
    left = 0
    while True:
        if left == 0:
            opt = GridSearch(pipeline_space=spaces.build(spec), grid_step_size=size, seed=case["seed"])
            left = plan.pop(0) if plan else 5
        left -= 1
        random.random()
        try:
            s = opt.ask(dict(trials), None)
        except ValueError:
            break
        expect(s.id not in trials, f"id {s.id} handed out twice")
        spaces.expect_in_space(spec, dict(s.config), "grid search")
        seen.append(key(dict(s.config)))
        t = Trial.new(trial_id=s.id, config=s.config, location="", previous_trial=None,
                      previous_trial_location=None, time_sampled=0.0, worker_id="w")
        if i not in case["fail"]:
            t.set_evaluating(time_started=0.0, worker_id="w")
            t.report = t.set_complete(report_as="success", time_end=1.0, loss=float(i), cost=None,
                                      learning_curve=None, err=None, tb=None, extra=None,
                                      evaluation_duration=1.0)
        trials[s.id] = t
        i += 1
        expect(i <= len(full) + 1, "grid search does not end")
    expect(len(set(seen)) == len(seen), "grid search repeats a configuration")
    expect(set(seen) == full, f"grid search visited {len(set(seen))} of {len(full)} configurations")
    ctx.nontrivial(len(full) > 3 and len(case["batches"]) > 1)
    ctx.label(f"n={min(len(full), 100) // 10 * 10}")


@st.composite
def run_cases(draw):
    return {
        "spec": draw(spaces.space_specs(max_size=2, fidelity="never")),
        "size": draw(st.integers(2, 3)),
        "batches": draw(st.lists(st.integers(1, 6), min_size=1, max_size=4)),
        "seed": draw(st.integers(0, 10**6)),
        "fail": draw(st.sets(st.integers(0, 12), max_size=2)),
    }


def through_run(case, ctx):
    """The same through neps.run, continued several times."""
    import neps
    from neps.optimizers.grid_search.optimizer import GridSearch

    spec, size = case["spec"], case["size"]
    if card(spec, size) > 20:
        return
    full = full_set(spaces.build(spec), size)
    root = ctx.scratch() / "root"
    seen = []

    def run_pipeline(**cfg):
        seen.append(key(cfg))
        if len(seen) in case["fail"]:
            raise RuntimeError("planned")
        return 1.0

    todo = len(full)
    plan = list(case["batches"])
    runs = 0
    while len(seen) < todo:
        b = plan.pop(0) if plan else todo
        seed_everything(case["seed"] + runs)
        n = len(seen)
        with sut("neps.run"):
            neps.run(
                run_pipeline=run_pipeline, pipeline_space=spaces.build_params(spec),
                root_directory=root, searcher=GridSearch, grid_step_size=size,
                max_evaluations_total=todo, max_evaluations_per_run=b, ignore_errors=True,
                post_run_summary=False,
            )
        runs += 1
        expect(len(seen) == min(todo, n + b), f"asked for {b} more than {n}, has {len(seen)}")
    expect(len(set(seen)) == len(seen), "grid search repeats a configuration")
    expect(set(seen) == full, f"grid search visited {len(set(seen))} of {len(full)} configurations")
    ctx.nontrivial(runs > 1 and len(full) > 2)


FACETS = [
    Facet("grid", cases, grid, 700, 12000, 2, rule="more than three grid points"),
    Facet("search", search_cases, search, 400, 8000, 2,
          rule="more than three grid points and a restart"),
    Facet("run", run_cases, through_run, 60, 1500, 2, rule="several runs and points"),
]
