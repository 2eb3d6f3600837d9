"""C30: ifBO continues paused configurations one step at a time, or starts new ones."""

from __future__ import annotations

import math
import random

from hypothesis import strategies as st

from checks.c20_promotion import finish, make_trial
from vlib import spaces
from vlib.core import Facet, expect, seed_everything, sut
from vlib.searchers import searcher

ASSUMPTIONS = [
    "the pretrained network can not be downloaded here: a stand-in takes its place at the"
    " interface of the ifbo package (same inputs, same kind of outputs)",
    "linear fidelities, as ifBO refuses others; sample_default_at_target is not covered",
]


class StandIn:
    """What ifbo.FTPFN offers to neps, with predictions of our choice. Records its inputs."""

    calls: list = []
    new = 0.5  # the mean prediction of a new configuration ...
    slope = 0.0  # ... and by how much it depends on the first column
    old: dict = {}  # configuration number (+ 1) -> mean prediction

    def __init__(self, target_path=None, version=None, device=None):
        import torch
        from ifbo.bar_distribution import BarDistribution

        self.device = device
        self.model = self._model
        StandIn._model.criterion = BarDistribution(torch.linspace(0, 1, 101))

    @staticmethod
    def mean(row):
        i = int(row[0])
        if i == 0:
            return StandIn.new + StandIn.slope * float(row[2])
        return StandIn.old.get(i, 0.5)

    @staticmethod
    def _model(train_x, train_y, test_x):
        import torch

        expect(train_x.ndim == 3 and test_x.ndim == 3 and train_x.shape[1] == test_x.shape[1] == 1
               and train_x.shape[2] == test_x.shape[2] >= 2 and len(train_x) == len(train_y)
               and len(train_x) > 0 and len(test_x) > 0,
               f"shapes given to the model: {train_x.shape}, {train_y.shape}, {test_x.shape}")
        StandIn.calls.append((train_x[:, 0].clone(), train_y.reshape(-1).clone(), test_x[:, 0].clone()))
        mid = (torch.arange(100) + 0.5) / 100
        ids = test_x[:, 0, 0]
        mu = torch.full_like(ids, StandIn.new)
        if StandIn.slope:
            mu = mu + StandIn.slope * test_x[:, 0, 2]
        for i in ids.unique().tolist():
            if i:
                mu[ids == i] = StandIn.old.get(int(i), 0.5)
        return (-(((mid - mu[:, None]) / 0.3) ** 2)).unsqueeze(1)


class standing_in:
    def __enter__(self):
        import sys

        import ifbo
        import neps.optimizers.bayesian_optimization.models.ftpfn  # noqa: F401

        orig = ifbo.FTPFN
        self.patched = [
            (m, name, v) for m in list(sys.modules.values())
            if getattr(m, "__name__", "").split(".")[0] in ("ifbo", "neps")
            for name, v in list(vars(m).items()) if v is orig
        ]
        for m, name, _ in self.patched:
            setattr(m, name, StandIn)
        self._forget()
        StandIn.calls, StandIn.old, StandIn.new, StandIn.slope = [], {}, 0.5, 0.0

    def _forget(self):
        """Models are remembered for the whole process."""
        from neps.optimizers.bayesian_optimization.models import ftpfn

        for v in vars(ftpfn).values():
            if isinstance(v, dict):
                for k in [k for k, m in v.items() if isinstance(m, StandIn)]:
                    del v[k]

    def __exit__(self, *exc):
        for m, name, v in self.patched:
            setattr(m, name, v)
        self._forget()


# ----------------------------------------------------------------------------- generators
@st.composite
def fidelities(draw):
    """The fidelity, the step and the levels that result (up to rounding)."""
    n = draw(st.one_of(st.integers(1, 4), st.integers(1, 12), st.integers(1, 60)))
    if draw(st.booleans()):
        step = draw(st.sampled_from([1, 1, 2, 3, 5, 10]))
        rest = draw(st.integers(0, step - 1))
        lower = draw(st.integers(1, 12))
        upper = lower + rest + n * step
        first = lower + rest
        d = ("int", {"lower": lower, "upper": upper, "is_fidelity": True})
    else:
        step = draw(st.sampled_from([0.1, 0.25, 1.0, 0.3, 0.05, 1 / 3, 7.0, 0.7]))
        rest = draw(st.sampled_from([0.0, 0.0, 0.5, 0.25])) * step
        lower = draw(st.sampled_from([0.1, 0.01, 1.0, 0.3, 2.5, 100.0, 1e-3]))
        # the sums and differences of these are subject to rounding
        upper = lower + (n * step + rest) if draw(st.booleans()) else round(lower + rest + n * step, 11)
        first = lower + rest
        d = ("float", {"lower": lower, "upper": upper, "is_fidelity": True})
    if draw(st.integers(0, 3)) == 0:
        d[1]["default"] = draw(st.sampled_from([d[1]["lower"], d[1]["upper"]]))
    return {"fid": d, "step": step, "n": n, "first": first}


@st.composite
def history_cases(draw):
    f = draw(fidelities())
    prior = draw(st.booleans())
    spec = draw(spaces.space_specs(max_size=4, fidelity="never", prior="always" if prior else "never"))
    name = draw(st.sampled_from(["epochs", "A0", "zz"]))
    spec = {**spec, name: f["fid"]} if draw(st.booleans()) else {name: f["fid"], **spec}
    kw = {"step_size": f["step"], "use_priors": prior and draw(st.booleans())}
    if prior:
        kw["sample_default_first"] = draw(st.booleans())
    kw["initial_design_size"] = draw(st.sampled_from(["ndim", 1, 2, 5]))
    return {
        "spec": spec, "kw": kw, "levels": f,
        "seed": draw(st.integers(0, 10**6)),
        "steps": draw(st.integers(6, 70)),
        "workers": draw(st.sampled_from([1, 1, 2, 4, 9])),
        "p_fail": draw(st.sampled_from([0.0, 0.0, 0.2])),
        "new": draw(st.sampled_from([0.1, 0.5, 0.9])),
        "slope": draw(st.sampled_from([0.0, 0.0, 0.2])),
        "fresh": draw(st.booleans()),
    }


def build_opt(case):
    with sut("creating ifbo"):
        return searcher("ifbo")(
            pipeline_space=spaces.build(case["spec"]),
            surrogate_model_args={"target_path": "/nonexistent"}, **case["kw"])


def key(config, fid):
    return tuple(sorted((k, repr(v)) for k, v in config.items() if k != fid))


# ------------------------------------------------------------------------------ histories
def history(case, ctx):
    spec, lv = case["spec"], case["levels"]
    fid = spaces.fidelity_name(spec)
    n, step, first = lv["n"], lv["step"], lv["first"]
    top = spec[fid][1]["upper"]
    is_int = spec[fid][0] == "int"
    level = [top - (n - k) * step for k in range(n + 1)]
    tol = 0 if is_int else 1e-6 * max(1.0, top)
    rng = random.Random(case["seed"])
    seed_everything(case["seed"])
    n_design = case["kw"]["initial_design_size"]
    if n_design == "ndim":
        n_design = sum(v[0] != "const" for k, v in spec.items() if k != fid)
    trials, running = {}, []
    seen = {"continued": 0, "new": 0, "blocked": 0}
    with standing_in():
        StandIn.new, StandIn.slope = case["new"], case["slope"]
        opt = build_opt(case)
        for _ in range(case["steps"]):
            if running and (len(running) >= case["workers"] or rng.random() < 0.5):
                t = trials[running.pop(rng.randrange(len(running)))]
                failed = rng.random() < case["p_fail"]
                loss = rng.choice([1.0, 0.25, 0.5, rng.random(), rng.random()])
                finish(t, None if failed else loss, failed)
                continue
            if case["fresh"] and rng.random() < 0.3:
                opt = build_opt(case)
            items = list(trials.items())
            rng.shuffle(items)
            # every configuration is seen differently, every time
            StandIn.old = {c + 1: rng.choice([0.3, 0.45, 0.6, 0.7]) + 0.01 * rng.random()
                           for c in range(len(trials) + 1)}
            StandIn.calls = []
            with sut("ifbo.ask"):
                p = opt.ask(dict(items), None)
            _check(p, trials, running, case, StandIn.calls, fid, level, tol, n_design, seen)
            trials[p.id] = make_trial(p.id, dict(p.config), p.previous_config_id)
            running.append(p.id)
    ctx.nontrivial(seen["continued"] > 0 and seen["new"] > 0)
    for k, v in seen.items():
        if v:
            ctx.label(k)
    ctx.label("int" if is_int else "float", f"{min(case['workers'], 2)}+ workers")
    if any(t.config[fid] == top for t in trials.values()):
        ctx.label("top reached")


def _check(p, trials, running, case, calls, fid, level, tol, n_design, seen):
    spec = case["spec"]
    numbers = {int(t.split("_")[0]) for t in trials}
    c, k = map(int, p.id.split("_"))
    expect(p.id not in trials, f"{p.id} is proposed again")
    spaces.expect_in_space(spec, p.config, f"proposal {p.id}", skip=())
    expect(k < len(level), f"{p.id} is beyond the highest fidelity")
    expect(abs(p.config[fid] - level[k]) <= tol,
           f"{p.id} has fidelity {p.config[fid]}, expected {level[k]}")
    latest = {}
    for t in trials:
        i, r = map(int, t.split("_"))
        latest[i] = max(latest.get(i, -1), r)
    busy = {int(t.split("_")[0]) for t in running}
    waiting = {i: r for i, r in latest.items() if i not in busy and r < len(level) - 1}
    if k == 0:
        expect(c == max(numbers, default=-1) + 1, f"new configuration {p.id}, known: {sorted(numbers)}")
        expect(p.previous_config_id is None, f"{p.id} continues {p.previous_config_id}")
        seen["new"] += 1
    else:
        expect(p.previous_config_id == f"{c}_{k - 1}", f"{p.id} continues {p.previous_config_id}")
        expect(c in waiting and waiting[c] == k - 1,
               f"{p.id} is proposed, those that can be continued are {waiting}")
        old = trials[p.previous_config_id].config
        expect(key(p.config, fid) == key(old, fid), f"{p.id} is {p.config}, was {old}")
        seen["continued"] += 1
    if busy & set(latest):
        seen["blocked"] += 1

    total = n_design + bool(case["kw"].get("sample_default_first"))
    n_real = sum(v[0] in ("float",) for kk, v in spec.items() if kk != fid)
    if len(numbers) < total and n_real:
        expect(k == 0 and not calls, f"{p.id} is proposed instead of the initial design of {total}")
        if not numbers and case["kw"].get("sample_default_first"):
            want = {kk: v[1]["default"] for kk, v in spec.items()
                    if "default" in v[1] and kk != fid}
            expect(all(p.config[kk] == w for kk, w in want.items()), f"first is {p.config}, default {want}")
        return
    if len(numbers) < total:
        return
    finished = {t for t in trials if t not in running}
    if not finished:
        expect(k == 0, f"{p.id} is proposed while nothing is finished")
        return
    expect(calls, f"the model is not asked for {p.id}")

    # what the model is told
    def row(tid):
        return (int(tid.split("_")[0]) + 1, trials[tid].config[fid] / level[-1])

    def value(tid):
        rep = trials[tid].report
        return 0.0 if rep.err is not None or rep.loss is None else 1.0 - rep.loss

    for x, y, test in calls:
        rows = sorted((int(a[0]), float(a[1]), float(b)) for a, b in zip(x, y))
        pend = len(rows) != len(finished)
        want = [(*row(t), value(t)) for t in finished]
        if pend:
            want += [(*row(t), StandIn.old[row(t)[0]]) for t in running]
        want.sort()
        ok = len(want) == len(rows) and all(
            a[0] == b[0] and abs(a[1] - b[1]) < 1e-5 and abs(a[2] - b[2]) < (0.1 if pend else 1e-6)
            for a, b in zip(rows, want))
        expect(ok, f"the model is trained on (number + 1, budget, score) {rows}, expected {want}")
        expect(all(0 <= float(v) <= 1 for v in x[:, 1:].reshape(-1)), "not normalised")
        expect(bool(((test[:, 1:] >= -1e-6) & (test[:, 1:] <= 1 + 1e-6)).all()), "test rows not normalised")
        per = {}
        for a in x:
            cols = tuple(a[2:].tolist())
            expect(per.setdefault(int(a[0]), cols) == cols, "one configuration has two encodings")
    if running:
        test = calls[0][2]
        expect(sorted((int(a[0]), round(float(a[1]), 4)) for a in test)
               == sorted((i, round(b, 4)) for i, b in map(row, running)),
               "what is running is not predicted before all else")
    last = calls[-1]
    expect(len(last[0]) == len(trials), "the proposal does not account for what is running")

    # what is chosen: the best among all that the model was asked about
    if not 0.25 < max(float(v) for v in last[1]) < 0.995:
        return  # nothing, or everything improves, according to the (broad) predictions
    cands = {i: StandIn.old[i + 1] for i in waiting}
    best_old = max(cands.values(), default=-math.inf)
    asked = [t for _, _, test in calls[1 if running else 0:] for t in test]
    new_rows = [t for t in asked if int(t[0]) == 0]
    expect(len(new_rows) >= 256, f"only {len(new_rows)} new configurations considered")
    best_new = max(StandIn.mean(t) for t in new_rows)
    if k == 0:
        expect(best_new >= best_old - 2e-3,
               f"{p.id} is new ({best_new:.3f}) though {best_old:.3f} is predicted for {cands}")
        numeric = [kk for kk in sorted(spec) if kk != fid and spec[kk][0] != "const"]
        if StandIn.slope and spec[numeric[0]][0] == "float":
            kind, d = spec[numeric[0]]
            v = spaces.normalize(kind, d, p.config[numeric[0]])
            want = max(float(t[2]) for t in new_rows)
            # the network computes in single precision
            tol = 0.02
            if not d.get("log"):
                tol += 2**-21 * max(abs(d["lower"]), abs(d["upper"])) / (d["upper"] - d["lower"])
            expect(abs(v - want) < tol, f"new configuration at {v} of {numeric[0]}, predicted best: {want}")
    else:
        expect(cands[c] >= best_old - 2e-3,
               f"{p.id} is continued, predictions: {cands}")
        expect(cands[c] >= best_new - 2e-3,
               f"{p.id} ({cands[c]:.3f}) is continued, new ones: {best_new:.3f}")


# -------------------------------------------------------------------------- losses refused
@st.composite
def range_cases(draw):
    good = st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0]))
    bad = st.one_of(st.floats(1.001, 1e6), st.floats(-1e6, -0.001),
                    st.sampled_from([math.inf, -math.inf]))
    n = draw(st.integers(1, 6))
    losses = draw(st.lists(st.one_of(good, good, st.sampled_from(["pending", "failed"])),
                           min_size=n, max_size=n))
    if draw(st.booleans()):
        losses.insert(draw(st.integers(0, n)), draw(bad))
    return {"losses": losses, "seed": draw(st.integers(0, 10**6))}


def refused(case, ctx):
    """ifBO needs losses in [0, 1]. Others are refused, whatever else is going on."""
    spec = {"a": ("float", {"lower": 0.0, "upper": 1.0}),
            "e": ("int", {"lower": 1, "upper": 5, "is_fidelity": True})}
    seed_everything(case["seed"])
    rng = random.Random(case["seed"])
    trials = {}
    is_bad = False
    for i, l in enumerate(case["losses"]):
        t = make_trial(f"{i}_0", {"a": rng.random(), "e": 1}, None)
        if l != "pending":
            finish(t, None if l == "failed" else l, l == "failed")
            is_bad |= l != "failed" and not 0 <= l <= 1
        trials[t.id] = t
    with standing_in():
        opt = build_opt({"spec": spec, "kw": {"initial_design_size": 1}})
        try:
            opt.ask(trials, None)
            failed = None
        except (RuntimeError, ValueError) as e:
            failed = e
    if is_bad:
        expect(failed is not None, f"losses {case['losses']} are accepted")
        expect("[0, 1]" in str(failed), f"losses {case['losses']}: {failed!r}")
    else:
        expect(failed is None, f"losses {case['losses']}: {failed!r}")
    ctx.nontrivial(len(trials) > 1)
    ctx.label("bad" if is_bad else "good", "pending" if "pending" in case["losses"] else "no pending")


# ---------------------------------------------------------------------- steps that don't fit
@st.composite
def step_cases(draw):
    kind = draw(st.sampled_from(["log", "large", "fraction"]))
    return {"kind": kind, "lower": draw(st.integers(1, 9)), "width": draw(st.integers(1, 30)),
            "extra": draw(st.floats(0.01, 0.95)), "is_int": draw(st.booleans())}


def steps(case, ctx):
    d = {"lower": case["lower"], "upper": case["lower"] + case["width"], "is_fidelity": True}
    kind = "int" if case["is_int"] or case["kind"] == "fraction" else "float"
    step = 1
    if case["kind"] == "log":
        d["log"] = True
    elif case["kind"] == "large":
        step = case["width"] + (1 if kind == "int" else case["extra"])
    else:
        step = 1 + case["extra"]
        if step > case["width"]:
            return
    if kind == "float":
        d["lower"], d["upper"] = float(d["lower"]), float(d["upper"])
    with standing_in():
        try:
            searcher("ifbo")(pipeline_space=spaces.build(
                {"a": ("float", {"lower": 0.0, "upper": 1.0}), "e": (kind, d)}), step_size=step)
        except (ValueError, NotImplementedError):
            pass
        else:
            expect(False, f"step size {step} is accepted for {d}")
    ctx.nontrivial(True)
    ctx.label(case["kind"])


# --------------------------------------------------------------------------------- neps.run
@st.composite
def run_cases(draw):
    return {
        "seed": draw(st.integers(0, 10**6)), "upper": draw(st.integers(2, 7)),
        "evals": draw(st.integers(3, 14)), "fail": draw(st.sampled_from([0.0, 0.0, 0.2])),
        "new": draw(st.sampled_from([0.1, 0.5])),
        "how": draw(st.sampled_from(["name", "dict", "object"])),
        "again": draw(st.booleans()),
    }


def run(case, ctx):
    """A run of neps: each evaluation finds the checkpoint of the step before."""
    import neps
    from neps.search_spaces import SearchSpace

    rng = random.Random(case["seed"])
    seed_everything(case["seed"])
    root = ctx.scratch() / "run"
    calls = []

    def run_pipeline(pipeline_directory, previous_pipeline_directory, a, b, e):
        prev = None
        if previous_pipeline_directory is not None:
            prev = (previous_pipeline_directory / "state").read_text().split()
        (pipeline_directory / "state").write_text(f"{a!r} {b} {e}")
        calls.append((pipeline_directory.name, prev, (repr(a), b, e)))
        if rng.random() < case["fail"]:
            raise ValueError("no luck")
        return rng.random()

    import logging

    logging.disable(logging.CRITICAL)
    try:
        with standing_in():
            StandIn.new = case["new"]
            args = {"surrogate_model_args": {"target_path": "/nonexistent"}}
            space = {"a": neps.Float(1e-6, 1.0, log=True), "b": neps.Categorical(["x", "y", "z"]),
                     "e": neps.Integer(1, case["upper"], is_fidelity=True)}
            how, kw = "ifbo", args
            if case["how"] == "dict":
                how, kw = {"strategy": "ifbo", **args}, {}
            elif case["how"] == "object":
                with sut("creating ifbo"):
                    how, kw = searcher("ifbo")(pipeline_space=SearchSpace(**space), **args), {}
            for total in ([case["evals"], case["evals"] + 3] if case["again"] else [case["evals"]]):
                with sut("neps.run"):
                    neps.run(
                        run_pipeline=run_pipeline, root_directory=root,
                        pipeline_space=space,
                        searcher=how, max_evaluations_total=total, ignore_errors=True, **kw)
    finally:
        logging.disable(logging.NOTSET)
    expect(len(calls) == total, f"{len(calls)} evaluations instead of {total}")
    done = {}
    for name, prev, (a, b, e) in calls:
        c, k = map(int, name.removeprefix("config_").split("_"))
        expect(e == 1 + k, f"{name} has fidelity {e}")
        if k == 0:
            expect(prev is None, f"{name} continues {prev}")
        else:
            expect(prev == [a, b, str(e - 1)], f"{name} {a, b, e} finds the state {prev}")
            expect((c, k - 1) in done, f"{name} before its predecessor")
        expect((c, k) not in done, f"{name} twice")
        done[c, k] = e
    ctx.nontrivial(any(k for _, k in done))


FINE = {
    "spec": {"zz": ("float", {"lower": 2.5, "upper": 2.6, "is_fidelity": True}),
             "a": ("float", {"lower": 0.0, "upper": 1.0, "log": False})},
    "kw": {"step_size": 0.1, "use_priors": False, "initial_design_size": "ndim"},
    "levels": {"n": 1, "step": 0.1, "first": 2.5},
    "seed": 0, "steps": 12, "workers": 1, "p_fail": 0.0, "new": 0.1, "slope": 0.0, "fresh": False,
}

FACETS = [
    Facet("history", history_cases, history, quick=120, thorough=3000, shards=4,
          rule="new configurations as well as continued ones", fixed=[FINE]),
    Facet("refused", range_cases, refused, quick=120, thorough=2000, shards=1,
          rule="several evaluations"),
    Facet("steps", step_cases, steps, quick=40, thorough=300, shards=1, rule="every case"),
    Facet("run", run_cases, run, quick=16, thorough=300, shards=2,
          rule="some configuration is continued"),
]
