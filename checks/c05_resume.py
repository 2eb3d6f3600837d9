"""C05: a run that is stopped and continued is the run it would have been without the stop."""

from __future__ import annotations

from hypothesis import strategies as st

from vlib import nepsrun, spaces
from vlib.core import Facet, Violation, expect, seed_everything, sut
from vlib.searchers import searcher

ASSUMPTIONS = [
    "one worker at a time; the evaluations are a function of the configuration",
    "the searchers that fit a model are slow and not part of the comparison, except for the"
    " initial design of bayesian optimization (see known findings)",
]

# searcher -> (prior, fidelity)
SEARCHERS = {
    "random_search": ("maybe", "maybe"),
    "successive_halving": ("never", "always"),
    "successive_halving_prior": ("always", "always"),
    "asha": ("never", "always"),
    "asha_prior": ("always", "always"),
    "hyperband": ("never", "always"),
    "hyperband_custom_default": ("always", "always"),
    "priorband": ("always", "always"),
    "priorband_asha": ("always", "always"),
    "priorband_asha_hyperband": ("always", "always"),
    "grid_search": ("maybe", "never"),
    "AsynchronousHyperband": ("never", "always"),
    "AsynchronousHyperbandWithPriors": ("always", "always"),
    "HyperbandWithPriors": ("always", "always"),
}
# no searcher of this name can be given to neps.run, only the object
OBJECTS = ["hyperband_custom_default", "priorband_asha", "priorband_asha_hyperband",
           "grid_search", "AsynchronousHyperband", "AsynchronousHyperbandWithPriors",
           "HyperbandWithPriors"]


@st.composite
def cases(draw, searchers=None, total=(2, 22)):
    name = draw(st.sampled_from(sorted(searchers or SEARCHERS)))
    prior, fid = (searchers or SEARCHERS)[name]
    spec = draw(spaces.space_specs(max_size=3, fidelity=fid, prior=prior, min_size=2))
    n = draw(st.integers(*total))
    cuts = sorted(draw(st.sets(st.integers(1, max(1, n - 1)), min_size=1, max_size=4)))
    kw = {}
    if fid == "always":
        kw["eta"] = draw(st.sampled_from([2, 3]))
        kw["random_interleave_prob"] = draw(st.sampled_from([0.0, 0.0, 0.5]))
    if name == "grid_search":
        kw = {"grid_step_size": 3}
        # no more than there are in the grid
        n = min(n, 2 ** sum(kind != "const" for kind, _ in spec.values()))
    if name == "random_search":
        kw = {"use_priors": draw(st.booleans()), "ignore_fidelity": draw(st.booleans())}
    return {
        "searcher": name, "spec": spec, "total": n, "cuts": cuts, "kw": kw,
        "seed": draw(st.integers(0, 10**6)),
        "seeds": draw(st.lists(st.integers(0, 10**6), min_size=5, max_size=5)),
        # how a part is limited: by the total, or by the number for this call
        "how": draw(st.lists(st.sampled_from(["total", "run"]), min_size=5, max_size=5)),
        "noise": draw(st.booleans()),
        "fail": draw(st.one_of(st.just(set()), st.sets(st.integers(0, 20), max_size=2))),
    }


def play(case, root, parts, noise):
    """Evaluate in parts of (limit, seed, how); the sequence of evaluated configurations."""
    import random

    import neps
    import numpy as np
    import torch

    seen = []

    def run_pipeline(pipeline_directory, previous_pipeline_directory, **config):
        if noise:  # the user's own random numbers
            random.random(), np.random.rand(3), torch.rand(2)
        prev = previous_pipeline_directory
        seen.append((
            nepsrun.trial_id_of(pipeline_directory),
            None if prev is None else nepsrun.trial_id_of(prev),
            sorted(config.items()),
        ))
        if len(seen) - 1 in case["fail"]:
            raise RuntimeError("planned")
        return {"loss": nepsrun.loss_of(config), "cost": 1.0}

    snap = {}
    for upto, seed, how in parts:
        seed_everything(seed)
        before = len(seen)
        space, name, kw = spaces.build_params(case["spec"]), case["searcher"], case["kw"]
        given = {"searcher": name, **kw}
        if name in OBJECTS:

            with sut(f"creating {name}"):
                given = {"searcher": searcher(name)(
                    pipeline_space=spaces.build(case["spec"]), **kw,
                    **({} if name == "grid_search" else dict(
                        budget=100, ignore_errors=True, loss_value_on_error=1e6,
                        cost_value_on_error=1.0)))}
        for f, b in snap.items():
            expect(f.read_bytes() == b, f"{f.name} of a finished trial changed")
        with sut(f"neps.run({case['searcher']})"):
            neps.run(
                run_pipeline=run_pipeline, pipeline_space=space, root_directory=root,
                ignore_errors=True,
                loss_value_on_error=1e6, cost_value_on_error=1.0,
                max_evaluations_total=upto if how == "total" else case["total"],
                max_evaluations_per_run=None if how == "total" else upto - before,
                post_run_summary=False, **given,
            )
        expect(len(seen) == upto, f"evaluated {len(seen)} instead of {upto} in total")
        snap = {
            p: p.read_bytes()
            for d in (root / "configs").iterdir() for p in d.iterdir() if p.suffix == ".yaml"
        }
    return seen


def resume(case, ctx):
    n = case["total"]
    cuts = [c for c in case["cuts"] if c < n]
    ref = play(case, ctx.scratch() / "one", [(n, case["seed"], "total")], False)
    ends = [*cuts, n]
    seeds = [case["seed"], *case["seeds"]]
    parts = [(e, s, h) for e, s, h in zip(ends, seeds, case["how"])]
    got = play(case, ctx.scratch() / "parts", parts, case["noise"])
    ctx.nontrivial(len(cuts) >= 1 and (n > 3 or case["searcher"] in BO))
    ctx.label(case["searcher"], f"parts={len(parts)}")
    for i, (a, b) in enumerate(zip(ref, got)):
        expect(
            repr(a) == repr(b),
            lambda: f"{case['searcher']}: evaluation {i} is {b}, without the stops {ends} it is {a}",
        )


BO = {"bayesian_optimization": ("never", "never")}


def bo(case, ctx):
    """Bayesian optimization within its initial design (as many evaluations as parameters)."""
    n = sum(1 for k, _ in case["spec"].values() if k != "const")
    case = {**case, "total": n, "cuts": [c for c in case["cuts"] if c < n] or [1], "fail": set()}
    if n < 2:
        return
    try:
        resume(case, ctx)
    except Violation as v:
        if "without the stops" in str(v):
            raise Violation(str(v), key="bo-restart-initial-design") from v
        raise


FACETS = [
    Facet("resume", cases, resume, 120, 3000, 6, rule="at least one stop and four evaluations"),
    Facet("bo", lambda: cases(searchers=BO, total=(2, 3)), bo, 12, 200, 1,
          rule="at least one stop within the initial design"),
]
