"""C29: searchers with a model propose what the finished evaluations suggest."""

from __future__ import annotations

import math
import random
import statistics

from hypothesis import strategies as st

from checks.c20_promotion import finish, make_trial
from vlib import mf, spaces
from vlib.core import Facet, expect, seed_everything, sut
from vlib.histories import loss_of, simulate, table
from vlib.searchers import searcher

ASSUMPTIONS = [
    "smooth losses in spaces of at most three dimensions; at most 12 combinations of categories",
    "thresholds measured on many seeds, with a wide margin (DESIGN.md)",
]


# --------------------------------------------------------------------- the training data
@st.composite
def data_cases(draw):
    spec = draw(spaces.space_specs(max_size=5, fidelity="never"))
    outcome = st.one_of(
        st.just("pending"), st.just("failed"), st.floats(-1e6, 1e6), st.floats(-2, 2),
        st.sampled_from([math.inf, -math.inf, math.nan, 0.0]),
    )
    n = draw(st.integers(1, 9))
    return {
        "spec": spec,
        "configs": draw(st.lists(spaces.configs_for(spec), min_size=n, max_size=n)),
        "outcomes": draw(st.lists(outcome, min_size=n, max_size=n)),
        "costs": draw(st.lists(st.one_of(st.none(), st.floats(0.01, 1e4)), min_size=n, max_size=n)),
        "names": draw(st.sampled_from(["numbers", "rungs"])),
    }


def data(case, ctx):
    """Finished evaluations are trained on, in any order; those without a loss as the median."""
    import torch

    from neps.optimizers.bayesian_optimization.models.gp import encode_trials_for_gp
    from neps.search_spaces.encoding import ConfigEncoder

    spec = case["spec"]
    params = {k: v for k, v in spec.items() if v[0] != "const"}
    if not params:
        return
    space = spaces.build(spec)
    trials, want, pending = {}, [], []
    for i, (cfg, out, cost) in enumerate(zip(case["configs"], case["outcomes"], case["costs"])):
        t = make_trial(f"{i}_0" if case["names"] == "rungs" else str(i + 1), dict(cfg), None)
        if out == "pending":
            pending.append(cfg)
        else:
            failed = out == "failed"
            finish(t, None if failed else out, failed)
            if t.report.cost is not None:
                t.report.cost = cost
            want.append((cfg, None if failed else out, t.report.cost))
        trials[t.id] = t
    if not want:
        return
    with sut("encode_trials_for_gp"):
        enc = ConfigEncoder.default(
            {**space.numerical, **space.categoricals}, constants=space.constants)
        got, back = encode_trials_for_gp(trials, space, encoder=enc)
        x = enc.encode([c for c, _, _ in want])
        xp = enc.encode(pending) if pending else None
    finite = sorted(l for _, l, _ in want if l is not None and math.isfinite(l))
    # the lower median, as torch defines it
    fill = finite[(len(finite) - 1) // 2] if finite else 0.0
    ys = [l if l is not None and math.isfinite(l) else fill for _, l, _ in want]
    expect(torch.equal(got.x, x), "the configurations trained on are not the finished ones")
    expect(got.y.tolist() == ys, f"losses trained on: {got.y.tolist()}, expected {ys}")
    if xp is None:
        expect(got.x_pending is None or len(got.x_pending) == 0, "pending without pending evaluations")
    else:
        expect(got.x_pending is not None and torch.equal(got.x_pending, xp),
               f"pending: {got.x_pending}, expected {pending}")
    for g, (_, _, c) in zip(got.cost.tolist(), want):
        expect(math.isnan(g) if c is None else g == c, f"cost {g} instead of {c}")
    ctx.nontrivial(len(want) >= 2 and (pending or len(set(ys)) > 1))
    ctx.label("pending" if pending else "no pending", "filled" if len(finite) < len(want) else "all finite")


# ---------------------------------------------------------------------- the model itself
@st.composite
def model_specs(draw, max_size=3, min_size=1, kinds=("float", "log", "int", "cat"), max_combos=12):
    spec = {}
    combos = 1
    n = draw(st.integers(min_size, max_size))
    for name in draw(st.permutations(["a", "b", "Zeta", "x10", "x2"]))[:n]:
        kind = draw(st.sampled_from(kinds))
        if kind == "cat":
            k = draw(st.sampled_from([2, 3, 3, 4]))
            if combos * k > max_combos:
                kind = "float"
            else:
                combos *= k
                spec[name] = ("cat", {"choices": ["u", "v", "w", "r"][:k]})
        if kind == "float":
            lo = draw(st.sampled_from([0.0, -3.0, 100.0]))
            spec[name] = ("float", {"lower": lo, "upper": lo + draw(st.sampled_from([1.0, 8.0])), "log": False})
        elif kind == "log":
            spec[name] = ("float", {"lower": 1e-4, "upper": draw(st.sampled_from([1.0, 1e2])), "log": True})
        elif kind == "int":
            spec[name] = ("int", {"lower": draw(st.sampled_from([1, -40])), "upper": 200, "log": False})
    return spec


@st.composite
def bowl_cases(draw, **kw):
    spec = draw(model_specs(**kw))
    return {"spec": spec, "seed": draw(st.integers(0, 10**6))}


def bowl(spec, rng):
    """A smooth function with one minimum, and the position of a configuration."""
    at = {k: rng.uniform(0.1, 0.9) for k in spec}
    cats = {k: rng.sample([0.0, 0.3, 0.6, 0.9], len(d["choices"]))
            for k, (kind, d) in spec.items() if kind == "cat"}

    def pos(cfg):
        return [spaces.normalize(kind, d, cfg[k]) for k, (kind, d) in spec.items() if kind != "cat"]

    def f(cfg):
        total = 0.0
        for k, (kind, d) in spec.items():
            if kind == "cat":
                total += cats[k][d["choices"].index(cfg[k])]
            else:
                total += (spaces.normalize(kind, d, cfg[k]) - at[k]) ** 2
        return total

    return f, pos


def draw_config(spec, rng):
    out = {}
    for k, (kind, d) in spec.items():
        if kind == "cat":
            out[k] = rng.choice(d["choices"])
        elif kind == "int":
            out[k] = rng.randint(d["lower"], d["upper"])
        elif d["log"]:
            out[k] = math.exp(rng.uniform(math.log(d["lower"]), math.log(d["upper"])))
        else:
            out[k] = rng.uniform(d["lower"], d["upper"])
    return out


def quantile(f, spec, rng):
    ref = [f(draw_config(spec, rng)) for _ in range(400)]

    def q(v):
        return (sum(r < v for r in ref) + 0.5 * sum(r == v for r in ref)) / len(ref)

    return q


@st.composite
def surrogate_cases(draw):
    c = draw(bowl_cases(max_size=4, max_combos=16))
    return {**c, "n": draw(st.integers(3, 10)), "scale": draw(st.sampled_from([1.0, 1e-3, 50.0])),
            "shift": draw(st.sampled_from([0.0, -7.0, 1e3]))}


def surrogate(case, ctx):
    """The model does not depend on orders and names, and depends on every parameter."""
    import torch

    from neps.optimizers.bayesian_optimization.models.gp import make_default_single_obj_gp
    from neps.search_spaces.encoding import ConfigEncoder

    spec, n = case["spec"], case["n"]
    rng = random.Random(case["seed"])
    f, _ = bowl(spec, rng)
    train = [draw_config(spec, rng) for _ in range(n)]
    test = [draw_config(spec, rng) for _ in range(8)]
    y = [f(c) for c in train]
    if max(y) - min(y) < 1e-3:
        return

    def posterior(spec, train, y, test):
        space = spaces.build(spec)
        enc = ConfigEncoder.default({**space.numerical, **space.categoricals}, constants={})
        gp = make_default_single_obj_gp(
            enc.encode(train), torch.tensor(y, dtype=torch.float64), encoder=enc)
        gp.eval()
        with torch.no_grad():
            p = gp.posterior(enc.encode(test))
            prior = gp.covar_module(enc.encode(test)).to_dense()
        return p.mean.flatten(), p.variance.flatten(), prior

    with sut("the posterior of the default model"):
        m, v, k = posterior(spec, train, y, test)
    spread = max(y) - min(y)

    def close(what, m2, v2):
        dm = float((m - m2).abs().max()) / spread
        dv = float((v - v2).abs().max()) / spread**2
        expect(dm < 1e-4 and dv < 1e-4, f"the model of {spec} depends on {what}: {m.tolist()}, {m2.tolist()}")

    order = list(range(n))
    rng.shuffle(order)
    with sut("the posterior after a change of order"):
        close("the order of the evaluations",
              *posterior(spec, [train[i] for i in order], [y[i] for i in order], test)[:2])
    flipped = {k: (kind, {**d, "choices": d["choices"][::-1]} if kind == "cat" else d)
               for k, (kind, d) in reversed(spec.items())}
    with sut("the posterior with the parameters and choices in another order"):
        close("the order of parameters and choices", *posterior(flipped, train, y, test)[:2])
    with sut("the posterior with scaled losses"):
        a, b = case["scale"], case["shift"]
        m3, v3, _ = posterior(spec, train, [a * t + b for t in y], test)
        # (variances have a lower limit)
        close("the scale of the losses", (m3 - b) / a, v3 / a**2 if a >= 1 else v)
    # every parameter matters: what differs in one of them is not the same point
    for name, (kind, d) in spec.items():
        other = []
        for c in test:
            alt = dict(c)
            if kind == "cat":
                alt[name] = rng.choice([x for x in d["choices"] if x != c[name]])
            else:
                alt[name] = d["lower"] if spaces.normalize(kind, d, c[name]) > 0.5 else d["upper"]
            other.append(alt)
        with sut("the covariance of the model"):
            kk = posterior(spec, train, y, [*test, *other])[2]
        for i in range(8):
            expect(float(kk[i, 8 + i]) < (1 - 1e-4) * float(kk[i, i]),
                   f"{test[i]} and {other[i]} are the same point to the model of {spec}")
    ctx.nontrivial(n >= 4 and len(spec) >= 2)
    ctx.label("/".join(sorted({k for k, _ in spec.values()})))


# ------------------------------------------------------- the maximum of the acquisition
@st.composite
def argmax_cases(draw):
    return draw(bowl_cases(max_size=4))


def argmax(case, ctx):
    """What is proposed maximises the acquisition function, over all categories."""
    import torch
    from botorch.acquisition.analytic import AcquisitionFunction

    from neps.optimizers.bayesian_optimization.models.gp import optimize_acq
    from neps.search_spaces.encoding import ConfigEncoder

    spec = case["spec"]
    rng = random.Random(case["seed"])
    seed_everything(case["seed"])
    space = spaces.build(spec)
    enc = ConfigEncoder.default({**space.numerical, **space.categoricals}, constants={})
    col = {k: enc.index_of[k] for k in spec}
    lo = {k: float(enc.domains[c].lower) for k, c in col.items()}
    hi = {k: float(enc.domains[c].upper) for k, c in col.items()}
    # the optimum may be at the border, and another one for every category
    at = {k: {i: min(1.0, max(0.0, rng.uniform(-0.2, 1.2))) for i in range(4)} for k in spec}
    bonus = {k: rng.sample([0.0, 1.0, 2.0, 4.0], 4) for k in spec}
    cats = [k for k, (kind, _) in spec.items() if kind == "cat"]
    mixed = rng.random() < 0.5

    class Acq(AcquisitionFunction):
        def __init__(self):
            super().__init__(model=torch.nn.Linear(1, 1))

        def forward(self, X):
            X = X.reshape(-1, X.shape[-1])
            out = torch.zeros(X.shape[0], dtype=X.dtype)
            which = X[:, col[cats[0]]].round().long().clamp(0, 3) if cats and mixed else None
            for k, c in col.items():
                if k in cats:
                    b = torch.tensor(bonus[k], dtype=X.dtype)
                    out = out + b[X[:, c].round().long().clamp(0, 3)]
                else:
                    u = (X[:, c] - lo[k]) / (hi[k] - lo[k])
                    centers = torch.tensor([at[k][i] for i in range(4)], dtype=X.dtype)
                    out = out - (u - (centers[which] if which is not None else centers[0])) ** 2
            return out

    acq = Acq()
    with sut("optimize_acq"):
        x, _ = optimize_acq(acq, enc, n_intial_start_points=64)
    expect(tuple(x.shape) == (1, len(spec)), f"shape {tuple(x.shape)}")
    row = x[0].tolist()
    for k, c in col.items():
        expect(lo[k] - 1e-9 <= row[c] <= hi[k] + 1e-9, f"{k}={row[c]} outside [{lo[k]}, {hi[k]}]")
        if k in cats:
            expect(row[c] == round(row[c]), f"{k}={row[c]} is not a choice")
    best = sum(max(bonus[k][: len(spec[k][1]["choices"])]) for k in cats)
    got = float(acq(x.unsqueeze(-2))[0])
    expect(got >= best - 5e-3 * len(spec),
           f"the acquisition of {row} is {got}, the maximum is {best} in {spec}")
    with sut("decoding"):
        cfg = enc.decode(x)[0]
    spaces.expect_in_space(spec, cfg, "maximum of the acquisition")
    for k in cats:
        top = max(range(len(spec[k][1]["choices"])), key=lambda i: bonus[k][i])
        expect(cfg[k] == spec[k][1]["choices"][top], f"{k}={cfg[k]!r} is not the best choice")
    ctx.nontrivial(len(spec) >= 2)
    ctx.label("categories" if cats else "numeric")


# ------------------------------------------------------------------------------- costs
@st.composite
def cooling_cases(draw):
    n = draw(st.integers(1, 6))
    return {
        "acq": draw(st.lists(st.floats(-5, 5), min_size=n, max_size=n)),
        "cost": draw(st.lists(st.floats(0.05, 50), min_size=n, max_size=n)),
        "used": draw(st.sampled_from([0.0, 0.25, 0.9, 1.0])),
        "log": draw(st.booleans()),
    }


def cooling(case, ctx):
    """The acquisition per cost, to the power of the share of the budget that is left."""
    import torch
    from botorch.acquisition.analytic import AcquisitionFunction

    from neps.optimizers.bayesian_optimization.acquisition_functions.cost_cooling import (
        cost_cooled_acq,
    )

    acq = torch.tensor(case["acq"], dtype=torch.float64)
    cost = torch.tensor(case["cost"], dtype=torch.float64)

    class Stub(AcquisitionFunction):
        _log = case["log"]

        def __init__(self):
            super().__init__(model=torch.nn.Linear(1, 1))

        def set_X_pending(self, X):
            self.X_pending = X

        def forward(self, X):
            return acq

    class Posterior:
        def __init__(self, mean):
            self.mean = mean

    class Model:
        num_outputs = 1

        def posterior(self, X, **kw):
            return Posterior(cost.reshape(*X.shape[:-1], 1))

    X = torch.zeros(len(acq), 1, 2, dtype=torch.float64)
    with sut("cost_cooled_acq"):
        got = cost_cooled_acq(Stub(), model=Model(), used_budget_percentage=case["used"])(X).tolist()
    for g, a, c in zip(got, case["acq"], case["cost"]):
        w = c ** (1 - case["used"])
        want = a - math.log(w) if case["log"] else (a / w if a > 0 else a * w)
        expect(abs(g - want) <= 1e-9 * (1 + abs(want)),
               f"acquisition {a} (log: {case['log']}) at cost {c} with {case['used']} of the"
               f" budget used becomes {g}, expected {want}")
    ctx.nontrivial(case["used"] < 1)


def history(opt_trials, spec, f, rng, n, *, cost=None, name=lambda i: str(i + 1), extra=None):
    for i in range(n):
        cfg = {**draw_config(spec, rng), **(extra or {})}
        t = make_trial(name(i), cfg, None)
        finish(t, f(cfg), False)
        if cost is not None:
            t.report.cost = cost(cfg)
        opt_trials[t.id] = t


@st.composite
def cheaper_cases(draw):
    c = draw(bowl_cases(max_size=2, kinds=("float", "log", "int")))
    return {**c, "on_log": draw(st.booleans()), "up": draw(st.booleans()),
            "n": draw(st.integers(8, 12)), "missing": draw(st.sampled_from([0, 4])),
            "free": draw(st.sampled_from([False, False, True])), "steep": draw(st.booleans())}


def cheaper(case, ctx):
    """With use_cost, cheap configurations are preferred among equally promising ones."""
    from neps.state.optimizer import BudgetInfo

    spec = case["spec"]
    rng = random.Random(case["seed"])
    seed_everything(case["seed"])
    key = next(iter(spec))

    def x(cfg):
        u = spaces.normalize(*spec[key], cfg[key])
        return u if case["up"] else 1 - u

    # nothing is to be gained anywhere
    def flat(cfg):
        return 0.0

    with sut("creating bayesian_optimization"):
        opt = searcher("bayesian_optimization")(
            pipeline_space=spaces.build(spec), initial_design_size=1, use_cost=True,
            cost_on_log_scale=case["on_log"])
    trials = {}
    steep = case["on_log"] or case["steep"]

    def cost(cfg):
        if case["free"] and x(cfg) < 0.1:
            return 0.0
        return math.exp(10 * x(cfg)) if steep else 1e-4 + x(cfg) ** 2

    history(trials, spec, flat, rng, case["n"] + case["missing"], cost=cost)
    # some did not report what they cost
    for tid in rng.sample(sorted(trials), case["missing"]):
        trials[tid].report.cost = None
    got = []
    for _ in range(3):
        with sut("bayesian_optimization.ask with costs"):
            p = opt.ask(dict(trials), BudgetInfo(max_cost_budget=100.0, used_cost_budget=0.0))
        spaces.expect_in_space(spec, p.config, "with costs")
        cfg = dict(p.config)
        got.append(round(x(cfg), 3))
        t = make_trial(p.id, cfg, None)
        finish(t, flat(cfg), False)
        t.report.cost = cost(cfg)
        trials[p.id] = t
    if ctx.tier == "measure":
        print("CHEAPER", len(spec), case["on_log"], case["missing"], steep, got, flush=True)
        return
    # (a model of steep costs that are not on a log scale is not accurate)
    expect((steep and not case["on_log"]) or statistics.median(got) < 0.65, f"evaluations at {got} of the range of costs in {spec}")
    ctx.nontrivial()
    ctx.label("log" if case["on_log"] else "linear")


# ------------------------------------------------------------------------ the proposals
@st.composite
def better_cases(draw):
    name = draw(st.sampled_from(
        ["bayesian_optimization", "bayesian_optimization", "bayesian_optimization",
         "mobster", "priorband_bo"]))
    c = draw(bowl_cases(max_size=3 if name == "bayesian_optimization" else 2))
    return {**c, "searcher": name, "more": draw(st.integers(0, 5)),
            "fails": draw(st.sampled_from([0, 0, 2])), "scale": draw(st.sampled_from([1.0, 1e-3, 1e4]))}


def better(case, ctx):
    """What is proposed after a history is better than what a random search would propose."""

    spec, name = case["spec"], case["searcher"]
    rng = random.Random(case["seed"])
    seed_everything(case["seed"])
    g, _ = bowl(spec, rng)
    f = lambda cfg: case["scale"] * (g(cfg) + (0.1 / cfg["epochs"] if "epochs" in cfg else 0))  # noqa: E731
    d = len(spec)
    trials, q = {}, quantile(g, spec, random.Random(case["seed"] + 1))
    full = dict(spec)
    if name != "bayesian_optimization":
        full["epochs"] = ("int", {"lower": 1, "upper": 9, "is_fidelity": True})
    if name == "priorband_bo":
        full = {k: (kind, {**v, "default": draw_config(spec, rng)[k], "default_confidence": "low"}
                    if k != "epochs" else v) for k, (kind, v) in full.items()}
    kw = {"initial_design_size": 1} if name == "bayesian_optimization" else {"eta": 3}
    if name == "priorband_bo":
        kw.update(modelling_type="joint", initial_design_size=3)
    with sut(f"creating {name}"):
        opt = searcher(name)(
            pipeline_space=spaces.build(full), ignore_errors=True,
            **({} if name == "bayesian_optimization" else {"budget": 100}), **kw)
    if name == "bayesian_optimization":
        history(trials, spec, f, rng, 5 + 3 * d + case["more"])
    elif name == "mobster":
        for r in (0, 1, 2):
            rr = random.Random(case["seed"] + 2)
            history(trials, spec, f, rr, 9 + 4 * d + case["more"], name=lambda i: f"{i}_{r}",
                    extra={"epochs": 3**r})
    else:
        src = searcher("hyperband")(
            pipeline_space=spaces.build(full), budget=100, ignore_errors=True, eta=3)
        for _ in range(26 + case["more"]):
            p = src.ask(dict(trials), None)
            t = make_trial(p.id, dict(p.config), p.previous_config_id)
            finish(t, f(p.config), False)
            trials[p.id] = t
    for tid in rng.sample(sorted(trials), case["fails"]) if name == "bayesian_optimization" else ():
        t = make_trial(tid, dict(trials[tid].config), None)
        finish(t, None, True)
        trials[tid] = t
    got, asks, want = [], 0, 3 if name == "bayesian_optimization" else 4
    while len(got) < want and asks < 14:
        asks += 1
        with sut(f"{name}.ask"):
            p = opt.ask(dict(trials), None)
        t = make_trial(p.id, dict(p.config), p.previous_config_id)
        finish(t, f(p.config), False)
        trials[p.id] = t
        if p.previous_config_id is None:
            spaces.expect_in_space(spec, {k: p.config[k] for k in spec}, name)
            got.append(round(q(g(p.config)), 2))
    if ctx.tier == "measure":
        print("BETTER", name, d, case["fails"], got, [k for k, _ in spec.values()], flush=True)
        return
    expect(len(got) < want or statistics.median(got) <= 0.7,
           f"{name} after {len(trials) - asks} evaluations proposes configurations that are worse"
           f" than {got} of random ones in {spec}")
    ctx.nontrivial(len(got) == want)
    ctx.label(name, "failures" if case["fails"] else "no failures")


@st.composite
def apart_cases(draw):
    c = draw(bowl_cases(min_size=2, max_size=2, kinds=("float", "log")))
    return {**c, "n": draw(st.integers(3, 5))}


def apart(case, ctx):
    """Proposals while other evaluations run are not those evaluations again."""

    spec, name = case["spec"], "bayesian_optimization"
    rng = random.Random(case["seed"])
    seed_everything(case["seed"])
    f, pos = bowl(spec, rng)
    trials = {}
    with sut(f"creating {name}"):
        opt = searcher(name)(pipeline_space=spaces.build(spec), initial_design_size=1)
    history(trials, spec, f, rng, case["n"])
    points, gaps = [], []
    for _ in range(4):
        with sut(f"{name}.ask with pending evaluations"):
            p = opt.ask(dict(trials), None)
        here = pos(p.config)
        if points:
            gaps.append(round(min(max(abs(a - b) for a, b in zip(here, o)) for o in points), 4))
        points.append(here)
        trials[p.id] = make_trial(p.id, dict(p.config), p.previous_config_id)
    if ctx.tier == "measure":
        print("APART", name, case["n"], gaps, flush=True)
        return
    expect(sum(g >= 0.01 for g in gaps) >= 2,
           f"{name} proposes evaluations that are running: distances {gaps} in {spec}")
    ctx.nontrivial()
    ctx.label(name)


# ------------------------------------------------------------- models over fidelities
@st.composite
def rungs_cases(draw):
    spec = dict(draw(model_specs()))
    name = draw(st.sampled_from(
        ["mobster", "mobster", "priorband_bo", "priorband", "priorband_asha", "priorband_asha_hyperband"]))
    if name != "mobster":
        for k in list(spec):
            kind, d = spec[k]
            d = dict(d, default=d["choices"][0] if kind == "cat" else d["lower"],
                     default_confidence=draw(st.sampled_from(["low", "medium"])))
            spec[k] = (kind, d)
    hi = draw(st.sampled_from([2, 4, 9]))
    spec["epochs"] = draw(st.sampled_from([
        ("int", {"lower": 1, "upper": hi, "is_fidelity": True}),
        ("float", {"lower": 0.5, "upper": float(hi), "is_fidelity": True})]))
    kw = {"eta": draw(st.sampled_from([2, 3]))}
    if name != "mobster":
        kw["modelling_type"] = draw(st.sampled_from(["rung", "joint"]))
        kw["model_based"] = True
        kw["initial_design_size"] = draw(st.sampled_from([None, 2, 5]))
    return {
        "spec": spec, "searcher": name, "kw": kw, "seed": draw(st.integers(0, 2**31)),
        "steps": draw(st.sampled_from([40, 70])), "workers": draw(st.sampled_from([1, 3, 6])),
        "p_fail": draw(st.sampled_from([0, 0, 0.2])),
        "losses": draw(st.lists(st.one_of(st.floats(-3, 3), st.sampled_from([0.0, math.nan, math.inf])),
                                min_size=2, max_size=5)),
    }


def rungs(case, ctx):
    """Models of several fidelities are trained on what was evaluated at these fidelities."""
    from neps.optimizers.multi_fidelity.sampling_policy import SamplingPolicy

    spec, name, kw = case["spec"], case["searcher"], case["kw"]
    rng = random.Random(case["seed"])
    seed_everything(case["seed"])
    fits, asked = [], []

    class Spy(SamplingPolicy):
        def __init__(self, *, pipeline_space, prior=None, **kwargs):
            super().__init__(pipeline_space=pipeline_space)

        def update_model(self, train_x, train_y, pending_x, decay_t=None):
            plain = lambda xs: [dict(x.hp_values()) for x in xs]  # noqa: E731
            fits.append((plain(train_x), list(train_y), plain(pending_x), decay_t))

        def sample(self, active_max_fidelity=None, fidelity=None, **kwargs):
            asked.append((active_max_fidelity, fidelity))
            return self.pipeline_space.sample(user_priors=False, ignore_fidelity=True)

    with sut(f"creating {name}"):
        opt = searcher(name)(pipeline_space=spaces.build(spec), budget=1000, ignore_errors=True,
                             model_policy=Spy, **kw)
    kind, fd = spec["epochs"]
    eta = kw["eta"]
    K = mf.n_rungs(fd["lower"], fd["upper"], eta)
    fid = [mf.fidelity(fd["lower"], fd["upper"], eta, K, r, kind == "int") for r in range(K + 1)]
    joint = kw.get("modelling_type", "joint") == "joint" and name != "mobster"
    needed = len(spec) - 1 + 2
    if joint and kw["initial_design_size"] is not None:
        needed = kw["initial_design_size"]
    key = lambda pair: repr([(k, pair[0][k]) for k in sorted(pair[0])] + [pair[1]])  # noqa: E731
    n_models = 0

    def at(t, r):
        return {**t.config, "epochs": fid[r]}

    for trials, p in simulate(opt, rng, steps=case["steps"], workers=case["workers"],
                              p_fail=case["p_fail"], losses=case["losses"], name=name):
        fit, ask = list(fits), list(asked)
        fits.clear(), asked.clear()
        known = table(trials)
        done = [(c, r, loss_of(t)) for c, rs in known.items() for r, t in rs.items() if t.report is not None]
        used = sum(fid[max(rs)] for rs in known.values() if rs[max(rs)].report is not None)
        pending = [(c, max(rs)) for c, rs in known.items() if rs[max(rs)].report is None]
        if joint:
            if kind != "int" and abs(used / fd["upper"] - needed) < 1e-9:
                continue
            ready = used / fd["upper"] >= needed
            want = [(at(known[c][r], r), l) for c, r, l in done]
            want_pending = [at(known[c][r], r) for c, r in pending]
        else:
            enough = [r for r in range(K + 1) if sum(r == rr for _, rr, _ in done) >= needed]
            ready = bool(enough)
            top = max(enough, default=None)
            want = [(at(known[c][r], r), l) for c, r, l in done if r == top]
            want_pending = [at(known[c][r], r) for c, r in pending if r == top]
        what = f"{name} with {kw} for {p.id} after {len(done)} evaluations ({used:g} of {fd['upper']} used)"
        if not ready:
            expect(not ask, f"{what}: a model is used, {needed} are needed")
            continue
        new = p.previous_config_id is None
        expect(bool(ask) == new, f"{what}: {'no ' if new else ''}model is used")
        if not new:
            continue
        expect(len(fit) >= 1, f"{what}: no model was trained")
        x, y, xp, decay = fit[-1]
        expect(sorted(map(key, zip(x, map(float, y)))) == sorted(key((c, float(l))) for c, l in want),
               lambda: f"{what}: trained on {list(zip(x, y))}, expected {want}")
        expect(sorted(key((c, 0)) for c in xp) == sorted(key((c, 0)) for c in want_pending),
               lambda: f"{what}: pending {xp}, expected {want_pending}")
        if name == "mobster":
            expect(decay is None, f"{what}: decay {decay}")
        else:
            expect(decay is not None and math.isclose(decay, used / fd["upper"], rel_tol=1e-9),
                   f"{what}: decay {decay}, expected {used / fd['upper']}")
        r = int(p.id.split("_")[1])
        expect(ask == [(None, fid[r]) if joint else (fid[top], None)],
               f"{what}: sampled for {ask}, rung {r} of {fid}")
        n_models += 1
    ctx.nontrivial(n_models >= 2)
    ctx.label(name, "joint" if joint else "rung", "model" if n_models else "no model")


# --------------------------------------------------- the model's share, given its data
@st.composite
def policy_cases(draw):
    c = draw(bowl_cases(max_size=2, kinds=("float", "log", "int")))
    return {**c, "n": draw(st.integers(6, 10)), "joint": draw(st.booleans()),
            "pending": draw(st.sampled_from([0, 1, 3])), "bad": draw(st.sampled_from([0, 0, 1]))}


def policy(case, ctx):
    """The model of mobster and PriorBand proposes what is better than random."""
    from neps.optimizers.multi_fidelity.sampling_policy import ModelPolicy

    spec = case["spec"]
    rng = random.Random(case["seed"])
    seed_everything(case["seed"])
    g, _ = bowl(spec, rng)
    q = quantile(g, spec, random.Random(case["seed"] + 1))
    full = {**spec, "epochs": ("int", {"lower": 1, "upper": 9, "is_fidelity": True})}
    space = spaces.build(full)
    levels = [1, 3, 9] if case["joint"] else [3]
    share = []
    for _ in range(5):
        def sample(epochs):
            return space.from_dict({**draw_config(spec, rng), "epochs": epochs})

        x = [sample(e) for e in levels for _ in range(case["n"])]
        y = [g(c.hp_values()) + 0.1 / c.hp_values()["epochs"] for c in x]
        for i in rng.sample(range(len(y)), case["bad"]):
            y[i] = math.inf
        # what is proposed while much is pending need not be good
        pending = [sample(rng.choice(levels)) for _ in range(case["pending"])] if len(share) == 4 else []
        with sut("ModelPolicy"):
            model = ModelPolicy(pipeline_space=space)
            model.update_model(x, y, pending)
            c = model.sample(**({"fidelity": 1} if case["joint"] else {"active_max_fidelity": 3}))
            c = dict(c.hp_values())
        spaces.expect_in_space(full, c, "the model's proposal")
        share.append(round(q(g(c)), 2))
    if ctx.tier == "measure":
        print("POLICY", case["joint"], len(spec), case["pending"], case["bad"], share, flush=True)
        return
    expect(sorted(share)[1] <= 0.65,
           f"the model's proposals are worse than {share} of random ones in {spec}")
    ctx.nontrivial()
    ctx.label("joint" if case["joint"] else "rung")


FACETS = [
    Facet("data", data_cases, data, quick=300, thorough=6000, shards=1,
          rule="two finished evaluations, and a pending one or different losses"),
    Facet("surrogate", surrogate_cases, surrogate, quick=80, thorough=1500, shards=1,
          rule="at least four evaluations and two parameters"),
    Facet("argmax", argmax_cases, argmax, quick=40, thorough=800, shards=2,
          rule="at least two parameters"),
    Facet("cooling", cooling_cases, cooling, quick=200, thorough=4000, shards=1,
          rule="some of the budget is left"),
    Facet("cheaper", cheaper_cases, cheaper, quick=20, thorough=150, shards=2,
          rule="every case proposes three configurations"),
    Facet("better", better_cases, better, quick=40, thorough=400, shards=4,
          rule="enough new configurations were proposed"),
    Facet("apart", apart_cases, apart, quick=20, thorough=200, shards=2,
          rule="every case proposes four configurations"),
    Facet("rungs", rungs_cases, rungs, quick=80, thorough=1500, shards=2,
          rule="at least two proposals of a model"),
    Facet("policy", policy_cases, policy, quick=24, thorough=250, shards=2,
          rule="every case proposes three configurations"),
]
