"""C25: a failed evaluation counts as the loss and cost given for errors, or as the worst result."""

from __future__ import annotations

import math
import random

from hypothesis import strategies as st

from checks.c19_proposals import CHEAP, MODEL, cheap_cases, model_cases
from checks.c20_promotion import finish, make_trial
from vlib import nepsrun, spaces
from vlib.core import Facet, expect, seed_everything, sut
from vlib.searchers import searcher

ASSUMPTIONS = [
    "one worker; model-based searchers with small histories (every proposal fits a Gaussian process)",
]

RUNGS = [n for n in CHEAP if n != "random_search"]


def seen_of(got):
    return (got.id, got.previous_config_id, sorted((k, repr(v)) for k, v in got.config.items()))


def twins(case, ctx, sub, p_fail, *, model=False):
    """Two searchers with equal seeds: evaluations fail for one, and return `sub` for the other."""
    from neps.state.optimizer import BudgetInfo

    spec, name = case["spec"], case["searcher"]
    rng = random.Random(case["seed"])
    seed_everything(case["seed"])
    ignored = sub is None

    def make(fails):
        kw = {"ignore_errors": True} if fails and ignored else (
            {"ignore_errors": case["ignore"], "loss_value_on_error": sub, "cost_value_on_error": 1.0}
            if fails else {})
        with sut(f"creating {name}"):
            seed_everything(case["seed"])
            return searcher(name)(
                pipeline_space=spaces.build(spec), budget=100, **kw, **case["kw"])

    a, b = make(True), make(False)
    ta, tb, pending = {}, {}, []
    failed = after = 0
    budget = BudgetInfo(max_cost_budget=50, used_cost_budget=10) if model else None
    for _ in range(case["steps"]):
        if pending and (len(pending) >= case["workers"] or rng.random() < 0.4):
            i = pending.pop(rng.randrange(len(pending)))
            if rng.random() < p_fail:
                finish(ta[i], sub, True)
                finish(tb[i], math.inf if ignored else sub, False)
                failed += 1
            else:
                loss = rng.choice([rng.uniform(-3, 3), rng.choice(case["losses"])])
                finish(ta[i], loss, False)
                finish(tb[i], loss, False)
            continue
        s = rng.randrange(10**6)
        got = []
        for opt, ts, what in ((a, ta, "failing"), (b, tb, "returning")):
            seed_everything(s)
            with sut(f"{name}.ask ({what})"):
                got.append(opt.ask(dict(ts), budget))
        x, y = map(seen_of, got)
        what = "infinity" if ignored else sub
        expect(x == y, f"{name}: proposes {x} after failures that count as {what}, {y} after evaluations that return it")
        for ts in (ta, tb):
            ts[got[0].id] = make_trial(got[0].id, dict(got[0].config), got[0].previous_config_id)
        pending.append(got[0].id)
        after += failed > 0
    ctx.label(name)
    ctx.nontrivial(failed >= 1 and after >= 2)


@st.composite
def substitute_cases(draw):
    c = draw(cheap_cases())
    c["sub"] = draw(st.sampled_from([0.0, -2.0, 5.0, 1e6, 0.5]))
    c["ignore"] = draw(st.booleans())
    c["p_fail"] = draw(st.sampled_from([0.1, 0.3, 0.6, 1.0]))
    return c


def substitute(case, ctx):
    twins(case, ctx, case["sub"], case["p_fail"])


@st.composite
def worst_cases(draw):
    c = draw(substitute_cases().filter(lambda c: c["searcher"] != "random_search"))
    return c


def worst(case, ctx):
    twins(case, ctx, None, case["p_fail"])


@st.composite
def model_sub_cases(draw):
    c = draw(model_cases())
    c["kw"]["use_cost"] = False
    if c["searcher"] not in ("bayesian_optimization", "pibo"):
        c["kw"].pop("use_cost")
    c.update(
        steps=draw(st.integers(4, 12)), workers=draw(st.sampled_from([1, 2])),
        losses=[r for r in c["results"] if isinstance(r, float) and math.isfinite(r)] + [1.0],
        sub=draw(st.sampled_from([0.0, -2.0, 5.0, 1e3])), ignore=draw(st.booleans()),
        p_fail=draw(st.sampled_from([0.2, 0.5])),
    )
    return c


def model_sub(case, ctx):
    spec = case["spec"]
    if not any(k != "const" and not d.get("is_fidelity") for k, d in spec.values()):
        return
    twins(case, ctx, case["sub"], case["p_fail"], model=True)


# ---------------------------------------------------------------- whole runs

RUN = ["random_search", "hyperband", "asha", "successive_halving", "priorband", "bayesian_optimization"]


@st.composite
def run_cases(draw):
    name = draw(st.sampled_from(RUN))
    fid = name not in ("random_search", "bayesian_optimization")
    spec = draw(spaces.space_specs(max_size=3, fidelity="always" if fid else "never",
                                   prior="always" if name == "priorband" else "never"))
    f = spaces.fidelity_name(spec)
    if f is not None:
        kind, d = spec[f]
        spec = {**spec, f: (kind, {**d, "upper": d["lower"] * draw(st.sampled_from([3, 9]))})}
    return {
        "searcher": name, "spec": spec,
        "loss": draw(st.sampled_from([0.0, 7.5, -3.0])), "cost": draw(st.sampled_from([0.0, 0.5, 3.0])),
        "ignore": draw(st.booleans()),
        "fail": draw(st.lists(st.booleans(), min_size=3, max_size=14)),
        "max_cost": draw(st.sampled_from([None, None, 4.0, 7.5])),
        "n": draw(st.integers(2, 14)), "batch": draw(st.sampled_from([None, 1, 3])),
        "seed": draw(st.integers(0, 10**6)),
    }


def run_one(case, root, fails):
    import neps

    seen = []

    def pipeline(**config):
        k = len(seen)
        seen.append(sorted((a, repr(b)) for a, b in config.items()))
        if case["fail"][k % len(case["fail"])]:
            if fails:
                raise ValueError("planned")
            return {"loss": case["loss"], "cost": case["cost"]}
        return {"loss": nepsrun.loss_of(config), "cost": 1.0}

    kw = {"initial_design_size": 20} if case["searcher"] == "bayesian_optimization" else {}
    seed_everything(case["seed"])
    for _ in range(case["n"] if case["batch"] else 1):
        n = len(seen)
        neps.run(
            run_pipeline=pipeline, pipeline_space=spaces.build_params(case["spec"]), root_directory=root,
            searcher=case["searcher"], max_evaluations_total=case["n"], max_cost_total=case["max_cost"],
            max_evaluations_per_run=case["batch"], loss_value_on_error=case["loss"],
            cost_value_on_error=case["cost"], ignore_errors=case["ignore"], post_run_summary=False, **kw,
        )
        if len(seen) == n:
            break
    return seen, nepsrun.read_trials(root)


def whole(case, ctx):
    base = ctx.scratch()
    with sut("neps.run (failing)"):
        sa, ta = run_one(case, base / "a", True)
    with sut("neps.run (returning)"):
        sb, tb = run_one(case, base / "b", False)
    expect(sa == sb, f"{case['searcher']}: failing evaluations lead to {sa}, the same values returned to {sb}")
    expect(set(ta) == set(tb), f"trials {sorted(ta)} and {sorted(tb)}")
    for i, t in ta.items():
        ra, rb = t.report, tb[i].report
        expect((ra is None) == (rb is None), f"{i}: {ra} and {rb}")
        if ra is not None:
            expect((ra.loss, ra.cost) == (rb.loss, rb.cost),
                   f"{i}: stored as {(ra.loss, ra.cost)}, not {(rb.loss, rb.cost)}")
    nf = sum(t.report is not None and t.report.reported_as != "success" for t in ta.values())
    expect(nf == sum(case["fail"][k % len(case["fail"])] for k in range(len(sa))), f"{nf} trials are stored as failed")
    ctx.label(case["searcher"])
    ctx.nontrivial(nf >= 1 and len(sa) >= 3)


# ---------------------------------------------------------------- what searchers read

num = st.one_of(st.floats(-1e6, 1e6), st.integers(-5, 5).map(float), st.just(math.inf))


@st.composite
def read_cases(draw):
    maybe = st.one_of(st.none(), num)
    return {
        "searcher": draw(st.sampled_from(["successive_halving", "asha", "hyperband"])),
        "form": draw(st.sampled_from(["report", "dict", "float", "error", "error"])),
        "loss": draw(maybe), "cost": draw(maybe), "failed": draw(st.booleans()),
        "sub_loss": draw(maybe), "sub_cost": draw(maybe), "ignore": draw(st.booleans()),
    }


def reading(case, ctx):
    """BaseOptimizer.get_loss and get_cost for every form a result can have."""
    from neps.state.trial import Report

    spec = {"a": ("float", {"lower": 0.0, "upper": 1.0}),
            "f": ("int", {"lower": 1, "upper": 9, "is_fidelity": True})}
    opt = searcher(case["searcher"])(
        pipeline_space=spaces.build(spec), budget=10, ignore_errors=case["ignore"],
        loss_value_on_error=case["sub_loss"], cost_value_on_error=case["sub_cost"])
    form = case["form"]
    for what, get in (("loss", opt.get_loss), ("cost", opt.get_cost)):
        v, sub = case[what], case[f"sub_{what}"]
        if form == "report":
            res = Report(
                trial_id="1", loss=case["loss"], cost=case["cost"], learning_curve=None, extra={},
                err=None, tb=None, reported_as="crashed" if case["failed"] else "success",
                evaluation_duration=1.0)
            want = "error" if v is None else v
        elif form == "dict":
            res = {"loss": case["loss"] or 0.0, "cost": case["cost"] or 0.0}
            want = v or 0.0
        elif form == "float":
            res = want = v or 0.0
        else:
            res = "error"
            want = sub if sub is not None else "error" if case["ignore"] else ValueError
        try:
            got = get(res)
        except ValueError:
            got = ValueError
        expect(got == want, f"the {what} of {res} is {got}, not {want}")
    ctx.label(form)
    ctx.nontrivial(form in ("report", "error"))


FACETS = [
    Facet("reading", read_cases, reading, 300, 3000, 1, rule="a report or a failure"),
    Facet("substitute", substitute_cases, substitute, 200, 4000, 4, rule="a failure and two proposals after it"),
    Facet("worst", worst_cases, worst, 200, 4000, 4, rule="a failure and two proposals after it"),
    Facet("model", model_sub_cases, model_sub, 24, 600, 6, rule="a failure and two proposals after it", quick_s=45.0),
    Facet("run", run_cases, whole, 60, 1500, 3, rule="a failure and three evaluations"),
]
