"""C19: whatever the history, every searcher proposes complete, legal, new configurations."""

from __future__ import annotations

import copy
import math
import random

from hypothesis import strategies as st

from checks.c20_promotion import finish, losses, make_trial
from vlib import spaces
from vlib.core import Facet, expect, seed_everything, sut
from vlib.searchers import searcher

ASSUMPTIONS = [
    "model-based searchers: at most 30 combinations of categories (a documented limit), and"
    " histories of a few trials, as every proposal fits a Gaussian process",
    "ifbo needs a surrogate that has to be downloaded: it is covered by C30 with a stand-in",
]

# name -> (prior, fidelity)
CHEAP = {
    "random_search": ("maybe", "maybe"),
    "successive_halving": ("maybe", "always"),
    "successive_halving_prior": ("always", "always"),
    "asha": ("maybe", "always"),
    "asha_prior": ("always", "always"),
    "hyperband": ("maybe", "always"),
    "hyperband_custom_default": ("always", "always"),
    "priorband": ("always", "always"),
    "priorband_asha": ("always", "always"),
    "priorband_asha_hyperband": ("always", "always"),
    "AsynchronousHyperband": ("maybe", "always"),
    "AsynchronousHyperbandWithPriors": ("always", "always"),
    "HyperbandWithPriors": ("always", "always"),
}


@st.composite
def options(draw, name):
    kw = {}
    if name == "random_search":
        return {"use_priors": draw(st.booleans()), "ignore_fidelity": draw(st.booleans())}
    kw["eta"] = draw(st.sampled_from([2, 3]))
    kw["random_interleave_prob"] = draw(st.sampled_from([0.0, 0.3, 1.0]))
    if "prior" in name.lower() or "default" in name:
        kw["prior_confidence"] = draw(st.sampled_from(["low", "medium", "high"]))
        kw["sample_default_first"] = draw(st.booleans())
        kw["sample_default_at_target"] = draw(st.booleans())
    if name.startswith("priorband"):
        kw["inc_sample_type"] = draw(
            st.sampled_from(["mutation", "mutation", "crossover", "gaussian", "hypersphere"]))
        kw["inc_style"] = draw(st.sampled_from(["dynamic", "dynamic", "decay", "constant"]))
        kw["prior_weight_type"] = draw(st.sampled_from(["geometric", "linear", "50-50"]))
        kw["inc_mutation_rate"] = draw(st.sampled_from([0.5, 0.0, 1.0]))
        kw["inc_mutation_std"] = draw(st.sampled_from([0.25, 0.01, 2.0]))
    return kw


@st.composite
def cheap_cases(draw):
    name = draw(st.sampled_from([*sorted(CHEAP), "priorband", "priorband"]))
    prior, fid = CHEAP[name]
    spec = draw(spaces.space_specs(max_size=4, fidelity=fid, prior=prior))
    f = spaces.fidelity_name(spec)
    if f is not None:  # few rungs, so that the top one is reached
        kind, d = spec[f]
        r = draw(st.sampled_from([2, 3, 9, 10]))
        d = {**d, "upper": d["lower"] * r}
        spec = {**spec, f: (kind, d)}
    kw = draw(options(name))
    free = [k for k, d in spec.values() if k != "const" and not d.get("is_fidelity")]
    if kw.get("inc_sample_type") == "hypersphere" and len(free) > 2:
        kw["inc_sample_type"] = "mutation"  # rejection sampling: slow in many dimensions
    return {
        "searcher": name, "spec": spec, "kw": kw,
        "steps": draw(st.integers(3, 70)), "workers": draw(st.sampled_from([1, 2, 4])),
        "losses": draw(st.lists(losses, min_size=2, max_size=8)),
        "p_fail": draw(st.sampled_from([0.0, 0.0, 0.1, 1.0])),
        "loss_on_error": draw(st.sampled_from([None, 2.0])),
        "seed": draw(st.integers(0, 10**6)),
    }


def snapshot(trials):
    return {
        k: (copy.deepcopy(dict(t.config)), t.state, repr(t.report), repr(t.metadata))
        for k, t in trials.items()
    }


def judge(name, spec, trials, got):
    """One proposal against the space and the history."""
    expect(got.id not in trials, f"{name}: the id {got.id} is in use")
    expect(isinstance(got.id, str) and got.id, f"{name}: the id is {got.id!r}")
    prev = got.previous_config_id
    expect(prev is None or prev in trials, f"{name}: continues the unknown {prev}")
    cfg = dict(got.config)
    expect(set(cfg) == set(spec),
           f"{name}: {got.id} has the parameters {sorted(cfg)}, the space {sorted(spec)}")
    spaces.expect_in_space(spec, cfg, f"{name}: {got.id}")


def cheap(case, ctx):

    spec, name = case["spec"], case["searcher"]
    f = spaces.fidelity_name(spec)
    rng = random.Random(case["seed"])
    seed_everything(case["seed"])

    def make():
        with sut(f"creating {name}"):
            return searcher(name)(
                pipeline_space=spaces.build(spec), budget=100, ignore_errors=True,
                loss_value_on_error=case["loss_on_error"],
                cost_value_on_error=case["loss_on_error"], **case["kw"])

    opt, twin = make(), make()
    trials, pending, seen = {}, [], 0
    for step in range(case["steps"]):
        if pending and (len(pending) >= case["workers"] or rng.random() < 0.4):
            t = pending.pop(rng.randrange(len(pending)))
            failed = rng.random() < case["p_fail"]
            loss = case["loss_on_error"] if failed else rng.choice(
                [rng.uniform(-3, 3), rng.choice(case["losses"])])
            finish(t, loss, failed)
            continue
        items = list(trials.items())
        rng.shuffle(items)
        before = snapshot(trials)
        s = rng.randrange(10**6)
        seed_everything(s)
        with sut(f"{name}.ask"):
            got = opt.ask(dict(items), None)
        expect(snapshot(trials) == before, f"{name}: asking changed the trials")
        judge(name, spec, trials, got)
        if rng.random() < 0.2:
            # a searcher in another process, that finds the files in another order
            rng.shuffle(items)
            seed_everything(s)
            with sut(f"{name}.ask"):
                again = twin.ask(dict(items), None)
            expect(
                (again.id, again.previous_config_id) == (got.id, got.previous_config_id)
                and repr(sorted(again.config.items())) == repr(sorted(got.config.items())),
                lambda: f"{name}: with the same seed and history {got} and {again}",
            )
        if name == "random_search" and f is not None and case["kw"]["ignore_fidelity"]:
            expect(got.config[f] == spec[f][1]["upper"], f"{name}: fidelity {got.config[f]}")
        t = make_trial(got.id, dict(got.config), got.previous_config_id)
        trials[got.id] = t
        pending.append(t)
        seen += 1
    ctx.nontrivial(seen >= 8)
    ctx.label(name, *(f"{k}={case['kw'][k]}" for k in ("inc_sample_type", "inc_style") if k in case["kw"]))


# ------------------------------------------------------------------ model based
MODEL = {
    "bayesian_optimization": ("maybe", "never"),
    "pibo": ("always", "never"),
    "mobster": ("maybe", "always"),
    "priorband_bo": ("always", "always"),
}


@st.composite
def model_cases(draw):
    name = draw(st.sampled_from([*sorted(MODEL), "bayesian_optimization", "pibo"]))
    prior, fid = MODEL[name]
    spec = draw(spaces.space_specs(max_size=3, fidelity=fid, prior=prior))
    combos = 1
    for k, (kind, d) in spec.items():
        if kind == "cat":
            n = len(d["choices"])
            if combos * n > 8:
                ch = d["choices"][:2]
                d = {**d, "choices": ch}
                if d.get("default") is not None:
                    d["default"] = ch[0]
                spec = {**spec, k: (kind, d)}
                n = 2
            combos *= n
    f = spaces.fidelity_name(spec)
    kw = {}
    if f is None:
        kw["initial_design_size"] = draw(st.sampled_from([None, 1, 2, 4]))
        kw["sample_default_first"] = draw(st.booleans()) if prior == "always" else False
        kw["use_cost"] = draw(st.sampled_from([False, False, False, True]))
    else:
        kind, d = spec[f]
        spec = {**spec, f: (kind, {**d, "upper": d["lower"] * 3})}
        kw["eta"] = 3
        if name == "priorband_bo":
            kw["modelling_type"] = draw(st.sampled_from(["joint", "rung"]))
            kw["initial_design_size"] = draw(st.sampled_from([None, 1, 3]))
    return {
        "searcher": name, "spec": spec, "kw": kw,
        "n": draw(st.integers(1, 9)),
        "results": draw(st.lists(
            st.one_of(st.just("pending"), st.just("failed"), losses, losses), min_size=9, max_size=9)),
        "asks": draw(st.integers(1, 2)), "seed": draw(st.integers(0, 10**6)),
    }


def model(case, ctx):
    from neps.state.optimizer import BudgetInfo

    spec, name, kw = case["spec"], case["searcher"], case["kw"]
    if not any(k != "const" and not d.get("is_fidelity") for k, d in spec.values()):
        return
    seed_everything(case["seed"])
    mf = spaces.fidelity_name(spec) is not None
    with sut(f"creating {name}"):
        opt = searcher(name)(
            pipeline_space=spaces.build(spec), budget=100, ignore_errors=True, **kw)
        # the history comes from a searcher without a model
        src = searcher("asha" if mf else "random_search")(
            pipeline_space=spaces.build(spec), budget=100, ignore_errors=True)
    trials = {}

    def result(t, r):
        if r == "failed":
            finish(t, None, True)
        elif r != "pending":
            finish(t, r, False)

    design = 0
    if not mf:
        nd = sum(1 for k, d in spec.values() if k != "const")
        design = (kw["initial_design_size"] or nd) + bool(kw["sample_default_first"])
    budget = BudgetInfo(max_cost_budget=50, used_cost_budget=10)
    n = case["n"] * (2 if mf else 1)
    for i in range(n + case["asks"]):
        own = i >= n
        if own:
            costs = [t for t in trials.values() if t.report is not None and t.report.cost is not None]
            if kw.get("use_cost") and not costs and any(t.report is not None for t in trials.values()):
                return  # refused with a message that says so
            with sut(f"{name}.ask"):
                got = opt.ask(dict(trials), budget)
            judge(name, spec, trials, got)
        else:
            got = src.ask(dict(trials), None)
        t = make_trial(got.id, dict(got.config), got.previous_config_id)
        trials[got.id] = t
        result(t, case["results"][i % 9])
    done = sum(t.report is not None for t in trials.values())
    ctx.nontrivial(n >= design and done >= 1)
    ctx.label(name, "model" if n >= design else "design")


# --------------------------------------------------------------- initial design
@st.composite
def design_cases(draw):
    kinds = draw(st.sampled_from([("float",), ("float", "int", "cat")]))
    prior = draw(st.sampled_from(["never", "never", "always"]))
    spec = draw(spaces.space_specs(max_size=5, fidelity="never", prior=prior, kinds=kinds))
    return {"spec": spec, "prior": prior == "always", "size": draw(st.sampled_from([None, 1, 2, 4, 8, 16])),
            "default": draw(st.booleans()) and prior == "always",
            "seed": draw(st.integers(0, 10**6))}


def resolution(d):
    """Samples have single precision: how fine that is in the unit interval."""
    tol = 1e-6 + 2e-7 * max(abs(d["lower"]), abs(d["upper"])) / (d["upper"] - d["lower"])
    if d["log"]:
        lg = [abs(math.log(d[x])) for x in ("lower", "upper")]
        tol += 2e-7 * max(*lg, 1) / abs(math.log(d["upper"] / d["lower"]))
    return tol


def design(case, ctx):

    spec = case["spec"]
    seed_everything(case["seed"])
    name = "pibo" if case["prior"] else "bayesian_optimization"
    params = {k: v for k, v in spec.items() if v[0] != "const"}
    n = case["size"] or len(params)
    with sut(f"creating {name}"):
        opt = searcher(name)(
            pipeline_space=spaces.build(spec), initial_design_size=case["size"],
            sample_default_first=case["default"])
    trials, cfgs = {}, []
    for i in range(n + case["default"]):
        finite = all(k == "cat" or k == "int" for k, _ in params.values())
        if finite and i >= 1:
            break  # a discrete design may be shorter than requested
        with sut(f"{name}.ask"):
            got = opt.ask(dict(trials), None)
        judge(name, spec, trials, got)
        t = make_trial(got.id, dict(got.config), None)
        finish(t, 1.0, False)
        trials[got.id] = t
        cfgs.append(dict(got.config))
    if case["default"]:
        first = cfgs.pop(0)
        for k, (kind, d) in params.items():
            expect(spaces.same(first[k], d["default"]),
                   f"{name}: the default is not sampled first: {k}={first[k]!r}, not {d['default']!r}")
    floats = [(k, kind, d) for k, (kind, d) in params.items() if kind == "float"]
    if len(floats) == len(params) and cfgs:
        coarse = [resolution(d) > 0.05 for _, _, d in floats]
        uniq = {tuple(sorted(c.items(), key=lambda x: x[0])) for c in cfgs if not any(isinstance(v, list) for v in c.values())}
        expect(all(coarse) or len(uniq) == len(cfgs), f"{name}: the initial design has duplicates: {cfgs}")
        if not case["prior"] and n >= 2:
            # a Sobol sequence: any two consecutive points, from an even position, lie in
            # different halves of every dimension
            for k, kind, d in floats:
                us = [spaces.normalize(kind, d, c[k]) for c in cfgs]
                tol = resolution(d)
                if tol > 0.05:
                    continue
                for i in range(0, len(us) - 1, 2):
                    a, b = us[i], us[i + 1]
                    expect(min(a, b) <= 0.5 + tol and max(a, b) > 0.5 - tol,
                           f"{name}: points {i} and {i + 1} of the design are both in one half of {k}: {us}")
    ctx.nontrivial(len(cfgs) >= 2)
    ctx.label(name, "float" if len(floats) == len(params) else "mixed")


FACETS = [
    Facet("cheap", cheap_cases, cheap, 240, 5000, 5, rule="at least eight proposals"),
    Facet("model", model_cases, model, 60, 1200, 6, rule="past the initial design with a finished trial",
          quick_s=45.0),
    Facet("design", design_cases, design, 150, 3000, 1, rule="at least two points"),
]
