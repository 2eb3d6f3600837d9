"""C20: the multi-fidelity searchers promote the right configurations at the right time."""

from __future__ import annotations

import math
import random

from hypothesis import strategies as st

from vlib import mf, spaces
from vlib.core import Facet, expect, seed_everything, sut
from vlib.searchers import searcher

ASSUMPTIONS = [
    "successive halving and hyperband: brackets of consecutive configurations, sizes as in"
    " the code's documentation (floor instead of ceil in Alg. 1 of the hyperband paper)",
    "asynchronous variants: the top 1/eta of the configurations that wait in a rung",
]

# name -> (algo, needs prior)
SEARCHERS = {
    "successive_halving": ("sync", False),
    "successive_halving_prior": ("sync", True),
    "asha": ("async", False),
    "asha_prior": ("async", True),
    "hyperband": ("hyperband", False),
    "hyperband_custom_default": ("hyperband", True),
    "priorband": ("hyperband", True),
    "priorband_asha": ("async", True),
    "priorband_asha_hyperband": ("async_hyperband", True),
    "AsynchronousHyperband": ("async_hyperband", False),
    "AsynchronousHyperbandWithPriors": ("async_hyperband", True),
    "HyperbandWithPriors": ("hyperband", True),
}


@st.composite
def fidelities(draw, eta, max_k=3):
    k = draw(st.one_of(st.integers(1, 2), st.integers(0, max_k)))
    if draw(st.booleans()):
        lower = draw(st.integers(1, 8))
        upper = draw(st.integers(lower * eta**k, max(lower * eta ** (k + 1) - 1, lower + 1)))
        return ("int", {"lower": lower, "upper": max(upper, lower + 1), "is_fidelity": True})
    lower = draw(st.sampled_from([0.1, 1.0, 0.3, 2.5, 1e-3, 7.0]))
    f = draw(st.sampled_from([1.0, 1.25, 1.7]))
    upper = lower * eta**k * f
    if upper <= lower:
        upper = lower * 1.3
    return ("float", {"lower": lower, "upper": upper, "is_fidelity": True,
                      "log": draw(st.booleans())})


losses = st.one_of(
    st.integers(0, 4).map(float), st.floats(-1e6, 1e6), st.just(math.inf), st.just(math.nan),
    st.just(-math.inf),
)


@st.composite
def cases(draw):
    name = draw(st.sampled_from(sorted(SEARCHERS)))
    algo, prior = SEARCHERS[name]
    eta = draw(st.sampled_from([2, 3, 4]))
    spec = draw(spaces.space_specs(
        max_size=3, fidelity="never", prior="always" if prior else "never"))
    fid = draw(fidelities(eta))
    names = draw(st.sampled_from(["epochs", "A0", "zz"]))
    spec = {**spec, names: fid} if draw(st.booleans()) else {names: fid, **spec}
    kw = {"eta": eta}
    if prior:
        kw["sample_default_first"] = draw(st.booleans())
        kw["sample_default_at_target"] = draw(st.booleans())
    if name in ("successive_halving", "asha", "successive_halving_prior", "asha_prior"):
        K = mf.n_rungs(fid[1]["lower"], fid[1]["upper"], eta)
        kw["early_stopping_rate"] = draw(st.integers(0, K))
    err = draw(st.sampled_from([None, 3.0, -1.0]))
    return {
        "searcher": name, "spec": spec, "kw": kw, "loss_on_error": err,
        "configs": draw(st.lists(spaces.configs_for(spec), min_size=1, max_size=4)),
        "losses": draw(st.lists(losses, min_size=3, max_size=12)),
        "seed": draw(st.integers(0, 10**6)),
        "steps": draw(st.one_of(st.integers(4, 160), st.integers(40, 160))),
        "workers": draw(st.sampled_from([1, 1, 2, 3, 6, 15])),
        "p_done": draw(st.sampled_from([0.4, 0.4, 0.05])),
        # how often the real searcher is asked (otherwise the model makes history)
        "p_real": draw(st.sampled_from([0.1, 0.3, 1.0])),
        "p_fail": draw(st.sampled_from([0.0, 0.0, 0.1])),
        "fresh": draw(st.booleans()),
    }


def make_trial(tid, config, prev):
    from neps.state.trial import Trial

    t = Trial.new(
        trial_id=tid, config=config, location="", previous_trial=prev,
        previous_trial_location=None if prev is None else "", time_sampled=1.0, worker_id="w",
    )
    t.set_submitted(time_submitted=1.0)
    t.set_evaluating(time_started=1.0, worker_id="w")
    return t


def finish(t, loss, failed):
    t.report = t.set_complete(
        report_as="crashed" if failed else "success", loss=loss, cost=1.0 if loss is not None else None,
        learning_curve=None, err=ValueError("x") if failed else None, tb=None, extra={},
        evaluation_duration=1.0, time_end=2.0,
    )


def build_opt(case):

    with sut(f"creating {case['searcher']}"):
        return searcher(case["searcher"])(
            pipeline_space=spaces.build(case["spec"]), budget=100, ignore_errors=True,
            loss_value_on_error=case["loss_on_error"], cost_value_on_error=case["loss_on_error"],
            **case["kw"],
        )


def promotion(case, ctx):
    spec, eta = case["spec"], case["kw"]["eta"]
    name = case["searcher"]
    algo, prior = SEARCHERS[name]
    fname = spaces.fidelity_name(spec)
    fkind, fd = spec[fname]
    kw = case["kw"]
    model = mf.Model(
        algo, fd["lower"], fd["upper"], eta, fkind == "int",
        early=kw.get("early_stopping_rate", 0),
        default_at_target=bool(kw.get("sample_default_first") and kw.get("sample_default_at_target")),
    )
    rng = random.Random(case["seed"])
    seed_everything(case["seed"])
    opt = build_opt(case)
    trials, pending = {}, []
    n_real = 0
    for step in range(case["steps"]):
        if pending and (len(pending) >= case["workers"] or rng.random() < case["p_done"]):
            c, r = pending.pop(rng.randrange(len(pending)) if rng.random() < 0.7 else 0)
            failed = rng.random() < case["p_fail"]
            loss = case["losses"][rng.randrange(len(case["losses"]))]
            if not failed and rng.random() < 0.5:
                loss = rng.uniform(-5, 5)
            sub = case["loss_on_error"]
            if failed:
                # what the worker writes for a crashed evaluation
                finish(trials[f"{c}_{r}"], sub, True)
                model.complete(c, r, math.inf if sub is None else sub)
            else:
                finish(trials[f"{c}_{r}"], loss, False)
                model.complete(c, r, loss)
            continue

        want = model.expected()
        if rng.random() < case["p_real"] or step >= case["steps"] - 3:
            n_real += 1
            if case["fresh"] and rng.random() < 0.3:
                opt = build_opt(case)
            items = list(trials.items())
            rng.shuffle(items)  # the order in which the files are found is arbitrary
            with sut(f"{name}.ask"):
                got = opt.ask(dict(items), None)
            c, r = map(int, got.id.split("_"))
            cfg, prev = dict(got.config), got.previous_config_id
            expect(got.id not in trials, f"{name}: {got.id} is proposed a second time")
            if prev is None:
                what = ("new", c, r)
                expect(c not in model.configs, f"{name}: {got.id} continues nothing")
                ok = what in want
            else:
                expect(prev == f"{c}_{r - 1}", f"{name}: {got.id} continues {prev}")
                expect(prev in trials, f"{name}: {got.id} continues {prev}, which does not exist")
                what = ("promote", c, r - 1)
                ok = any(w[0] == "promote" and c in w[1] and w[2] == r - 1 for w in want)
                old = trials[prev].config
                for k in spec:
                    if k != fname:
                        expect(spaces.same(cfg.get(k), old[k]),
                               f"{name}: {got.id} has {k}={cfg.get(k)!r}, {prev} had {old[k]!r}")
            expect(ok, lambda: f"{name}: proposes {what}, expected {want} after {history(model)}")
            spaces.expect_in_space(spec, cfg, name)
            f = cfg[fname]
            expect(type(f) is (int if fkind == "int" else float), f"{name}: fidelity {f!r}")
            expect(math.isclose(f, model.fid[r], rel_tol=1e-9),
                   f"{name}: {got.id} is evaluated at {f}, rung {r} is {model.fid[r]}")
        else:
            w = want[rng.randrange(len(want))]
            if w[0] == "new":
                c, r, prev = w[1], w[2], None
                cfg = dict(case["configs"][rng.randrange(len(case["configs"]))])
            else:
                c, r = rng.choice(sorted(w[1])), w[2] + 1
                prev = f"{c}_{w[2]}"
                cfg = dict(trials[prev].config)
            cfg[fname] = model.fid[r]
        trials[f"{c}_{r}"] = make_trial(f"{c}_{r}", cfg, prev)
        model.add(c, r)
        pending.append((c, r))
    ctx.nontrivial(model.n_promotions >= 2 and n_real >= 2)
    ctx.label(name, f"K={model.K}", "promotions" if model.n_promotions else "no promotion",
              "parallel" if case["workers"] > 1 else "sequential")


def history(model):
    return {c: {r: "?" if v is mf.PENDING else v for r, v in rs.items()} for c, rs in model.configs.items()}


FACETS = [
    Facet("promotion", cases, promotion, 260, 8000, 7,
          rule="at least two promotions in the history and two questions to the searcher"),
]
