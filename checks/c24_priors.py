"""C24: defaults with a confidence are distributions, and searchers with priors follow them."""

from __future__ import annotations

import math
import random

import numpy as np
from hypothesis import strategies as st

from checks.c20_promotion import finish, make_trial
from vlib import mf, spaces
from vlib.core import Facet, expect, seed_everything, sut
from vlib.histories import loss_of, simulate, table
from vlib.searchers import searcher

ASSUMPTIONS = [
    "distributions are judged by the mean position and the mean distance from the default of"
    " 250 to 2000 samples, with a false-alarm probability below 1e-9 per comparison, so that"
    " small changes of a distribution are not seen",
    "float ranges are wider than a thousandth of their bounds, integer ranges are wide (at least 20 values) where a distribution is judged",
]

STD = {"low": 0.5, "medium": 0.25, "high": 0.125}  # of the range, on the scale
WEIGHT = {"low": 2.0, "medium": 4.0, "high": 6.0}  # of the default, others 1
PIBO = {"low": 0.25, "medium": 0.5, "high": 0.75}
Z = 6.5


# --------------------------------------------------------------------------- spaces
@st.composite
def wide_int(draw, prior=True):
    log = draw(st.booleans())
    lo = draw(st.integers(5, 40) if log else st.integers(-100, 100))
    hi = lo * draw(st.sampled_from([10, 30])) if log else lo + draw(st.integers(40, 2000))
    d = {"lower": lo, "upper": hi, "log": log}
    if prior:
        q = draw(st.sampled_from([0.0, 0.1, 0.5, 0.8, 1.0]))
        d["default"] = int(round(
            math.exp(math.log(lo) + q * math.log(hi / lo)) if log else lo + q * (hi - lo)))
        d["default_confidence"] = draw(st.sampled_from(spaces.CONF))
    return ("int", d)


def wide(p):
    """Single precision, which the samplers use, is enough for the range."""
    d = p[1]
    return d["upper"] - d["lower"] > 1e-3 * max(abs(d["upper"]), abs(d["lower"]))


@st.composite
def specs(draw, *, max_size=3, fidelity=False, partial=False, ints=None, need_float=False):
    n = draw(st.integers(1, max_size))
    names = draw(st.lists(st.sampled_from(spaces.NAMES), min_size=n, max_size=n, unique=True))
    spec = {}
    for i, k in enumerate(names):
        p = True if not partial else draw(st.sampled_from([True, True, False]))
        kind = draw(st.sampled_from(["float", "int", "cat"]))
        if need_float and i == 0:
            kind = "float"
        spec[k] = draw(
            spaces.float_param(prior=p).filter(wide) if kind == "float"
            else (ints or wide_int)(prior=p) if kind == "int" else spaces.cat_param(prior=p))
    if draw(st.booleans()):
        spec["konst"] = draw(spaces.const_param())
    if fidelity:
        f = draw(st.sampled_from(["epochs", "AA", "zz"]))
        spec[f] = ("int", {"lower": 1, "upper": draw(st.sampled_from([3, 9, 10])),
                           "is_fidelity": True})
    order = draw(st.permutations(list(spec)))
    return {k: spec[k] for k in order}


def bounds(kind, d):
    pad = 0.499999 if kind == "int" else 0.0
    lo, hi = d["lower"] - pad, d["upper"] + pad
    return (math.log(lo), math.log(hi)) if d.get("log") else (lo, hi)


def pos(kind, d, v):
    lo, hi = bounds(kind, d)
    return ((math.log(v) if d.get("log") else v) - lo) / (hi - lo)


def choice(d, v):
    return next(i for i, c in enumerate(d["choices"]) if spaces.same(c, v))


# --------------------------------------------------------------------------- densities
@st.composite
def density_cases(draw):
    spec = draw(specs(partial=True, ints=spaces.int_param))
    if draw(st.booleans()):
        f = draw(spaces.float_param(prior=True).filter(wide))
        f[1]["is_fidelity"] = True
        spec[draw(st.sampled_from(["epochs", "AA", "zz"]))] = f
    return {"spec": spec, "ignore_fidelity": draw(st.booleans()), "seed": draw(st.integers(0, 10**6)),
            "new": draw(st.sampled_from([None, "default", "confidence", "both", "current"])),
            "conf": draw(st.sampled_from(spaces.CONF))}


def log_ratio(kind, d, v):
    """The log density at v relative to the one at the default, on the scale."""
    if kind == "cat":
        w = WEIGHT[d["default_confidence"]]
        return 0.0 if spaces.same(v, d["default"]) else -math.log(w)
    lo, hi = d["lower"], d["upper"]
    x, c = v, d["default"]
    if d["log"]:
        lo, hi, x, c = (math.log(t) for t in (lo, hi, x, c))
    z = (x - c) / ((hi - lo) * STD[d["default_confidence"]])
    return -z * z / 2


def density(case, ctx):
    """The prior of a configuration decreases around the default as the confidence says."""
    spec = {k: (kind, dict(d)) for k, (kind, d) in case["spec"].items()}
    seed_everything(case["seed"])
    rng = random.Random(case["seed"])
    with sut("building the space"):
        space = spaces.build(spec)
    with sut("sampling"):
        configs = [space.sample(ignore_fidelity=False).hp_values() for _ in range(6)]
    ctx.label(f"new:{case['new']}")
    if case["new"]:
        other = configs[0]
        with sut(f"changing the prior ({case['new']})"):
            if case["new"] == "current":
                space = space.from_dict(other)
                space.set_defaults_to_current_values()
            for k, (kind, d) in spec.items():
                if kind == "const":
                    continue
                if case["new"] in ("default", "both"):
                    space[k].set_default(other[k])
                if case["new"] in ("confidence", "both"):
                    space[k].set_default_confidence_score(case["conf"])
                if case["new"] in ("default", "both", "current"):
                    d["default"] = other[k]
                    d.setdefault("default_confidence", "low")
                if case["new"] in ("confidence", "both"):
                    d["default_confidence"] = case["conf"]
        configs = configs[1:]
    with_prior = {
        k: v for k, v in spec.items() if v[1].get("default") is not None
        and not (v[1].get("is_fidelity") and case["ignore_fidelity"])}
    if len(with_prior) >= 1 and len({tuple(map(repr, c.values())) for c in configs}) > 1:
        ctx.nontrivial(repr(case))

    def of(config, log):
        with sut("compute_prior"):
            s = space.from_dict(config)
            if rng.random() < 0.5:
                s = s.clone()
            return s.compute_prior(log=log, ignore_fidelity=case["ignore_fidelity"])

    ref = dict(configs[0])
    for k, (_, d) in with_prior.items():
        ref[k] = d["default"]
    base, log_base = of(ref, False), of(ref, True)
    expect(math.isfinite(base) and base > 0, f"the prior of the default {ref} is {base}")
    for c in configs:
        want = sum(log_ratio(kind, d, c[k]) for k, (kind, d) in with_prior.items())
        got = of(c, False)
        expect(math.isclose(got, base * math.exp(want), rel_tol=1e-6, abs_tol=1e-300),
               f"the prior of {c} is {got}, expected {base * math.exp(want)}"
               f" ({math.exp(want)} of the one of the default) in {spec}")
        if any(log_ratio(kind, d, c[k]) < -12 for k, (kind, d) in with_prior.items()):
            continue
        lg = of(c, True)
        # every factor has a small constant added before taking its logarithm
        expect(abs(lg - log_base - want) < 1e-4 * (1 + abs(want)) * (1 + len(with_prior)),
               f"the log prior of {c} is {lg}, expected {log_base + want} in {spec}")


# --------------------------------------------------------------------------- samples
N_QUANTILES = 20001


def unit_truncnorm(center, std):
    from scipy.stats import truncnorm

    a, b = (0 - center) / std, (1 - center) / std
    q = (np.arange(N_QUANTILES) + 0.5) / N_QUANTILES
    return np.clip(truncnorm.ppf(q, a, b) * std + center, 0, 1)


def rounded(kind, d, u):
    if kind != "int":
        return u
    lo, hi = bounds(kind, d)
    x = lo + u * (hi - lo)
    v = np.clip(np.rint(np.exp(x) if d["log"] else x), d["lower"], d["upper"])
    return ((np.log(v) if d["log"] else v) - lo) / (hi - lo)


def judge(what, spec, samples, weight, *, conf=None, pibo=False, tol=0.01):
    """Samples against weight * prior + (1 - weight) * uniform, parameter by parameter."""
    n = len(samples)
    for k, (kind, d) in spec.items():
        if kind == "const" or d.get("is_fidelity"):
            continue
        has = "default" in d
        c = (conf or d["default_confidence"]) if has else None
        values = [s[k] for s in samples]
        if kind == "cat":
            m = len(d["choices"])
            p = np.full(m, 1 / m)
            if has:
                i = choice(d, d["default"])
                if pibo:
                    prior = np.full(m, (1 - PIBO[c]) / m)
                    prior[i] += PIBO[c]
                else:
                    prior = np.ones(m)
                    prior[i] = WEIGHT[c]
                    prior /= prior.sum()
                p = weight * prior + (1 - weight) * p
            got = np.bincount([choice(d, v) for v in values], minlength=m) / n
            for i in range(m):
                bound = Z * math.sqrt(p[i] * (1 - p[i]) / n) + 0.005
                expect(abs(got[i] - p[i]) <= bound,
                       f"{what}: {k} is {d['choices'][i]!r} in {got[i]:.3f} of {n} samples,"
                       f" expected {p[i]:.3f} ({d}, confidence {c})")
            continue
        u = np.array([pos(kind, d, v) for v in values])
        uniform = rounded(kind, d, (np.arange(N_QUANTILES) + 0.5) / N_QUANTILES)
        center = pos(kind, d, d["default"]) if has else 0.5
        std = (1 - PIBO[c] if pibo else STD[c]) if has else None
        prior = rounded(kind, d, unit_truncnorm(center, std)) if has else uniform
        for name, f in (("position", lambda x: x), ("distance from the default",
                                                    lambda x: np.abs(x - center))):
            a, b = f(prior), f(uniform)
            mean = weight * a.mean() + (1 - weight) * b.mean()
            var = weight * (a**2).mean() + (1 - weight) * (b**2).mean() - mean**2
            bound = Z * math.sqrt(var / n) + tol
            expect(abs(f(u).mean() - mean) <= bound,
                   f"{what}: the mean {name} of {k} is {f(u).mean():.3f} in {n} samples,"
                   f" expected {mean:.3f} +- {bound:.3f} ({kind} {d}, confidence {c})")


@st.composite
def sample_cases(draw):
    return {"spec": draw(specs(partial=True)), "seed": draw(st.integers(0, 10**6)),
            "priors": draw(st.sampled_from([True, True, False])),
            "clone": draw(st.integers(0, 3)) == 0, "n": draw(st.sampled_from([500, 1200])),
            "conf": draw(st.sampled_from([None, None, *spaces.CONF])),
            "default": draw(st.booleans())}


def sampling(case, ctx):
    """Samples with priors follow them, samples without are uniform."""
    spec = case["spec"]
    seed_everything(case["seed"])
    with sut("building the space"):
        space = spaces.build(spec)
        spec = {k: (kind, dict(d)) for k, (kind, d) in spec.items()}
        other = space.sample().hp_values()
        for k, (kind, d) in spec.items():
            if kind == "const" or "default" not in d:
                continue
            if case["conf"]:
                space[k].set_default_confidence_score(case["conf"])
                d["default_confidence"] = case["conf"]
            if case["default"]:
                space[k].set_default(other[k])
                d["default"] = other[k]
        if case["clone"]:
            space = space.clone()
    if case["conf"]:
        ctx.label("changed confidence")
    if case["priors"] and any("default" in d for _, d in spec.values()):
        ctx.nontrivial(repr(case))
    with sut("sampling"):
        samples = [
            space.sample(user_priors=case["priors"]).hp_values() for _ in range(case["n"])]
    judge(f"sampling with user_priors={case['priors']}", spec, samples, float(case["priors"]))


# --------------------------------------------------------------------------- searchers
SEARCHERS = [
    "random_search", "successive_halving_prior", "asha_prior", "hyperband_custom_default",
    "AsynchronousHyperbandWithPriors", "HyperbandWithPriors",
    "priorband", "priorband_asha", "priorband_asha_hyperband",
]


@st.composite
def searcher_cases(draw):
    name = draw(st.sampled_from(SEARCHERS))
    case = {
        "searcher": name, "spec": draw(specs(fidelity=True, max_size=2)),
        "seed": draw(st.integers(0, 10**6)), "running": draw(st.sampled_from([0, 0, 3, 12])),
        "n": draw(st.sampled_from([250, 400])), "kw": {},
    }
    if name == "random_search":
        case["kw"] = {"use_priors": draw(st.sampled_from([True, True, False]))}
    else:
        case["kw"] = {
            "eta": draw(st.sampled_from([2, 3])),
            "prior_confidence": draw(st.sampled_from(spaces.CONF)),
            "random_interleave_prob": draw(st.sampled_from([0.0, 0.0, 0.5, 1.0])),
            "sample_default_first": False,
        }
        if name.startswith("priorband"):
            case["kw"]["prior_weight_type"] = draw(st.sampled_from(["geometric", "50-50"]))
    return case


def searchers(case, ctx):
    """New configurations of a searcher with priors follow the priors."""

    spec, name, kw = case["spec"], case["searcher"], case["kw"]
    seed_everything(case["seed"])
    with sut(f"creating {name}"):
        opt = searcher(name)(pipeline_space=spaces.build(spec), budget=100, **kw)
    trials = {}
    for _ in range(case["running"]):
        with sut(f"{name}.ask"):
            got = opt.ask(dict(trials), None)
        trials[got.id] = make_trial(got.id, dict(got.config), got.previous_config_id)
    by_rung = {}
    for _ in range(case["n"]):
        with sut(f"{name}.ask"):
            got = opt.ask(dict(trials), None)
        expect(got.previous_config_id is None,
               f"{name}: continues {got.previous_config_id} that has no result")
        rung = 0 if name == "random_search" else int(got.id.rpartition("_")[2])
        by_rung.setdefault(rung, []).append(dict(got.config))
    ctx.label(name)
    ctx.nontrivial(repr(case))
    for rung, samples in by_rung.items():
        if len(samples) < 100:
            continue
        if rung:
            ctx.label(f"{name}:higher rung")
        w = 1.0
        if name == "random_search":
            w = float(kw["use_priors"])
        elif name == "hyperband_custom_default":
            w = 0.5
        elif name.startswith("priorband"):
            w = 0.5
            if kw["prior_weight_type"] == "geometric":
                # as probable as a random one in the lowest bracket, eta times in the next
                w = kw["eta"] ** rung / (1 + kw["eta"] ** rung)
        w *= 1 - kw.get("random_interleave_prob", 0.0)
        judge(f"{name} with {kw} in rung {rung}", spec, samples, w,
              conf=kw.get("prior_confidence"))


# --------------------------------------------------------------------------- first
@st.composite
def first_cases(draw):
    name = draw(st.sampled_from(SEARCHERS[1:] + ["pibo"]))
    return {
        "searcher": name, "spec": draw(specs(fidelity=name != "pibo")),
        "first": draw(st.sampled_from([True, True, False])), "target": draw(st.booleans()),
        "seed": draw(st.integers(0, 10**6)), "again": draw(st.booleans()),
        "conf": draw(st.sampled_from(spaces.CONF)),
    }


def first(case, ctx):
    """The default comes first, once, at the target fidelity if asked for."""

    spec, name = case["spec"], case["searcher"]
    f = spaces.fidelity_name(spec)
    kw = {"sample_default_first": case["first"]}
    if f:
        kw.update(sample_default_at_target=case["target"], prior_confidence=case["conf"])
    else:
        kw["initial_design_size"] = 4
    seed_everything(case["seed"])
    with sut(f"creating {name}"):
        opt = searcher(name)(pipeline_space=spaces.build(spec), budget=100, **kw)
    want = {
        k: d["value"] if kind == "const" else d["default"]
        for k, (kind, d) in spec.items() if k != f}
    ctx.label(f"{name}:{case['first']}")
    if case["first"]:
        ctx.nontrivial(repr(case))
    trials, n_default = {}, 0
    for i in range(3):
        with sut(f"{name}.ask"):
            got = opt.ask(dict(trials), None)
            if case["again"]:
                got = opt.ask(dict(trials), None)
        cfg = dict(got.config)
        same = all(spaces.same(cfg[k], v) or spec[k][0] == "float"
                   and math.isclose(cfg[k], v, rel_tol=1e-9) for k, v in want.items())
        if i == 0 and case["first"]:
            expect(same, f"{name}: the first configuration is {cfg}, the default {want}")
            if f and case["target"]:
                expect(cfg[f] == spec[f][1]["upper"],
                       f"{name} with {kw}: the default is evaluated with {f}={cfg[f]}")
        floats = [k for k, (kind, d) in spec.items()
                  if kind == "float" and d["lower"] < d["default"] < d["upper"]]
        if floats and not (i == 0 and case["first"]):
            # a continuous distribution does not repeat the default
            expect(not all(cfg[k] == want[k] for k in floats),
                   f"{name} with {kw}: configuration {i + 1} is the default again: {cfg}")
        trials[got.id] = make_trial(got.id, cfg, got.previous_config_id)
        finish(trials[got.id], float(i), False)


# --------------------------------------------------------------------------- pibo
@st.composite
def pibo_cases(draw):
    return {
        "spec": draw(specs(partial=True, need_float=True)),
        "seed": draw(st.integers(0, 10**6)), "n": draw(st.sampled_from([400, 900])),
        "beyond": draw(st.integers(0, 2)) == 0,
    }


def pibo(case, ctx):
    """The initial design of pibo, and what comes while it runs, follow the priors."""

    spec, n = case["spec"], case["n"]
    seed_everything(case["seed"])
    design = 2 if case["beyond"] else n
    with sut("creating pibo"):
        opt = searcher("pibo")(
            pipeline_space=spaces.build(spec), initial_design_size=design)
    ctx.nontrivial(repr(case))
    trials, samples = {}, []
    for i in range(n):
        with sut("pibo.ask"):
            got = opt.ask(trials, None)
        if case["beyond"] and i < 2 or not case["beyond"]:
            trials[got.id] = make_trial(got.id, dict(got.config), None)
        if not case["beyond"] or i >= 2:
            samples.append(dict(got.config))
    ctx.label("beyond" if case["beyond"] else "design")
    judge("pibo", spec, samples, 1.0, pibo=not case["beyond"], tol=0.03)


# --------------------------------------------------------------------------- acquisition
@st.composite
def weight_cases(draw):
    return {
        "spec": draw(specs(partial=True, max_size=4)), "seed": draw(st.integers(0, 10**6)),
        "log": draw(st.booleans()), "exponent": draw(st.sampled_from([0.01, 0.5, 1.0, 3.0])),
        "q": draw(st.sampled_from([1, 1, 2])),
    }


def weight(case, ctx):
    """The acquisition is weighted by the density of the prior, to the power of the exponent."""
    import torch
    from botorch.acquisition.analytic import AcquisitionFunction

    from neps.optimizers.bayesian_optimization.acquisition_functions.pibo import (
        pibo_acquisition,
    )
    from neps.sampling.priors import Prior
    from neps.search_spaces.encoding import ConfigEncoder

    spec, e = case["spec"], case["exponent"]
    seed_everything(case["seed"])
    with sut("building the space"):
        space = spaces.build(spec)
        params = {**space.numerical, **space.categoricals}
        encoder = ConfigEncoder.default(params, constants=space.constants)
        prior = Prior.from_parameters(hp for _, hp in sorted(params.items()))
    configs = [space.sample().hp_values() for _ in range(5)]
    base = torch.linspace(0.5, 2.0, 5, dtype=torch.float64)

    class Stub(AcquisitionFunction):
        _log = case["log"]

        def __init__(self):
            super().__init__(model=torch.nn.Linear(1, 1))

        def set_X_pending(self, X):
            self.X_pending = X

        def forward(self, X):
            return base[: X.shape[0]]

    with sut("pibo_acquisition"):
        x = encoder.encode(configs)
        got = pibo_acquisition(Stub(), prior=prior, prior_exponent=e,
                               x_domain=encoder.domains)(x.unsqueeze(-2))
    got = [float(v) for v in got]
    from scipy.stats import truncnorm

    def log_density(cfg):
        total = 0.0
        for k, (kind, d) in spec.items():
            if kind == "const" or "default" not in d:
                continue
            c = PIBO[d["default_confidence"]]
            if kind == "cat":
                m = len(d["choices"])
                total += math.log(
                    (1 - c) / m + c * spaces.same(cfg[k], d["default"]))
                continue
            lo, hi, v, at = d["lower"], d["upper"], cfg[k], d["default"]
            if d["log"]:
                lo, hi, v, at = (math.log(t) for t in (lo, hi, v, at))
            u, m, s = (v - lo) / (hi - lo), (at - lo) / (hi - lo), 1 - c
            total += float(truncnorm.logpdf(u, -m / s, (1 - m) / s, loc=m, scale=s))
        return total

    logs = [log_density(c) for c in configs]
    if max(logs) - min(logs) > 1e-6:
        ctx.nontrivial(repr(case))
    ctx.label("log" if case["log"] else "linear")
    tol = 0.12 * e * len(spec)  # integers are rounded to the middle of their bin
    for c, g, b, lp in zip(configs, got, base.tolist(), logs):
        want = b + e * lp if case["log"] else b * math.exp(e * lp)
        err = abs(g - want) if case["log"] else abs(math.log(g / want))
        expect(err <= tol + 1e-6,
               f"the acquisition {b} (log: {case['log']}) of {c} becomes {g}, expected {want}"
               f" with the exponent {e} in {spec}")


# ------------------------------------------------------------------- PriorBand's mixture
MIXTURE = ["priorband", "priorband_asha", "priorband_asha_hyperband"]


@st.composite
def mixture_cases(draw):
    spec = dict(draw(specs(max_size=3)))
    hi = draw(st.sampled_from([1, 2, 4, 9, 10, 27]))
    free = [k for k in spaces.NAMES if k not in spec]
    fname = draw(st.sampled_from(free))
    if draw(st.booleans()):
        spec[fname] = ("int", {"lower": 1, "upper": max(2, hi), "log": False, "is_fidelity": True})
    else:
        spec[fname] = ("float", {"lower": 1 / 3, "upper": max(hi, 1) / 1.0, "log": draw(st.booleans()),
                                 "is_fidelity": True})
    eta = draw(st.sampled_from([2, 3, 3, 4]))
    name = draw(st.sampled_from(MIXTURE))
    fd = spec[fname][1]
    K = mf.n_rungs(fd["lower"], fd["upper"], eta)
    kw = {
        "eta": eta,
        "prior_weight_type": draw(st.sampled_from(["geometric", "linear", "50-50"])),
        "inc_style": draw(st.sampled_from(["dynamic", "decay", "constant"])),
        "inc_sample_type": draw(st.sampled_from(["mutation", "crossover", "gaussian", "hypersphere"])),
        "sample_default_first": draw(st.booleans()),
        "sample_default_at_target": draw(st.booleans()),
    }
    if name == "priorband_asha" and K:
        kw["early_stopping_rate"] = draw(st.sampled_from([0, 0, min(1, K), K]))
    return {
        "spec": spec, "fidelity": fname, "searcher": name, "kw": kw,
        "seed": draw(st.integers(0, 2**31)), "steps": draw(st.sampled_from([40, 90])),
        "workers": draw(st.sampled_from([1, 3, 6])), "p_fail": draw(st.sampled_from([0, 0, 0.2])),
        "losses": draw(st.lists(st.one_of(st.floats(-3, 3), st.sampled_from([0.0, math.nan, math.inf])),
                                min_size=2, max_size=5)),
    }


def mixture(case, ctx):
    """PriorBand draws at random, around the default and around the best, as documented."""
    from neps.optimizers.multi_fidelity.sampling_policy import EnsemblePolicy

    spec, name, kw = case["spec"], case["searcher"], case["kw"]
    eta, fd = kw["eta"], spec[case["fidelity"]][1]
    is_int = spec[case["fidelity"]][0] == "int"
    rng = random.Random(case["seed"])
    seed_everything(case["seed"])
    calls = []

    class Spy(EnsemblePolicy):
        def sample(self, inc=None, weights=None, *args, **kwargs):
            calls.append((None if inc is None else dict(inc.hp_values()), dict(weights)))
            return super().sample(inc, weights, *args, **kwargs)

    with sut(f"creating {name}"):
        opt = searcher(name)(pipeline_space=spaces.build(spec), budget=1000, ignore_errors=True,
                             sampling_policy=Spy, **kw)
    K = mf.n_rungs(fd["lower"], fd["upper"], eta)
    s = kw.get("early_stopping_rate", 0)
    fid = {r: mf.fidelity(fd["lower"], fd["upper"], eta, K, r, is_int) for r in range(s, K + 1)}
    n = {r: mf.bracket_size(K, eta, s) // eta ** (r - s) for r in fid}
    one_bracket = sum(n[r] * (fid[r] - (fid[r - 1] if r > s else 0)) for r in fid)
    seen = set()
    for trials, p in simulate(opt, rng, steps=case["steps"], workers=case["workers"],
                              p_fail=case["p_fail"], losses=case["losses"], name=name):
        now, calls[:] = list(calls), []
        if p.previous_config_id is not None:
            expect(not now, f"{name} samples to continue {p.previous_config_id}")
            continue
        c, r = map(int, p.id.split("_"))
        if not trials and kw["sample_default_first"]:
            continue  # see `first`
        expect(len(now) == 1, f"{name} samples {len(now)} times for {p.id}")
        inc, w = now[0]
        expect(set(w) == {"prior", "inc", "random"} and all(v >= 0 for v in w.values())
               and abs(sum(w.values()) - 1) < 1e-9, f"{name}: weights {w}")
        latest = {}
        for cc, rs in table(trials).items():
            rr = max(rs)
            latest[cc] = (rr, loss_of(rs[rr]), rs[rr])
        used = sum(fid[rr] for rr, l, _ in latest.values() if l is not None)
        at_max = sum(f"{cc}_{K}" in trials and trials[f"{cc}_{K}"].report is not None for cc in latest)
        full = (eta**r if kw["prior_weight_type"] == "geometric" else
                1 if kw["prior_weight_type"] == "50-50" else
                1 + (eta - 1) * ((r - s) / (K - s) if K > s else 0))
        what = f"{name} with {kw} for {p.id} after {used:g} of {one_bracket:g}, {at_max} at the maximum"
        expect(abs(w["random"] - 1 / (1 + full)) < 1e-9,
               f"{what}: {w}, expected to be random with {1 / (1 + full)}")
        # (additions of many fidelities are not exact)
        if abs(used - one_bracket) < 1e-9 * one_bracket and not is_int:
            continue
        on = used >= one_bracket and at_max > 0
        if not on:
            expect(inc is None and w["inc"] == 0, f"{what}: samples around {inc} with {w}")
            continue
        finished = {cc: l for cc, (_, l, _) in latest.items() if l is not None}
        expect(inc is not None, f"{what}: no incumbent in {w}")
        best = min(finished.values())
        same = [cc for cc, l in finished.items() if l == best and all(
            spaces.same(inc.get(k), latest[cc][2].config[k]) for k in spec if k != case["fidelity"])]
        expect(bool(same), f"{what}: samples around {inc}, the losses are {finished}")
        share = w["prior"] / (w["prior"] + w["inc"])
        seen.add(round(share, 6))
        if kw["inc_style"] == "constant":
            expect(abs(share - eta / (1 + eta)) < 1e-9, f"{what}: {w}")
        elif kw["inc_style"] == "decay":
            steps = used / (eta * fd["upper"])
            if is_int or abs(steps - round(steps)) > 1e-9:
                expect(abs(share - 0.5 ** math.floor(steps)) < 1e-9,
                       f"{what}: prior:incumbent is {share}, expected {0.5 ** math.floor(steps)}")
    ctx.nontrivial(bool(seen))
    ctx.label(name, kw["inc_style"], "with incumbent" if seen else "without incumbent")


# ------------------------------------------------------------- around the incumbent
@st.composite
def around_cases(draw):
    how = draw(st.sampled_from(["gaussian", "crossover", "crossover", "mutation", "hypersphere"]))
    if how == "gaussian":
        spec = draw(specs(fidelity=True, partial=True))
        if not any("default" in d and not d.get("is_fidelity") for _, d in spec.values()):
            spec["pp"] = draw(spaces.float_param(prior=True).filter(wide))
    else:
        n = draw(st.integers(1, 3))
        spec = {k: draw(spaces.float_param(prior=True).filter(wide)) for k in ["a", "B", "z"][:n]}
        spec["epochs"] = ("int", {"lower": 1, "upper": 9, "is_fidelity": True})
    i = draw(st.sampled_from([1.0, 0.7, 0.5]))
    p = (1 - i) * draw(st.sampled_from([1.0, 0.3, 0.0]))
    return {
        "spec": spec, "how": how, "seed": draw(st.integers(0, 10**6)),
        "weights": {"inc": i, "prior": p, "random": 1 - i - p} if how == "crossover"
        else {"inc": 1.0, "prior": 0.0, "random": 0.0},
        "n": draw(st.sampled_from([500, 1200])),
        "rate": draw(st.sampled_from([0.3, 0.5, 0.9])), "std": draw(st.sampled_from([0.03, 0.1])),
        "distance": draw(st.sampled_from([0.2, 0.35, 0.6])),
        "at": draw(st.sampled_from([0.2, 0.5, 0.8])),
    }


def around(case, ctx):
    """Configurations around the best one, in the four documented ways."""
    from neps.optimizers.multi_fidelity.sampling_policy import EnsemblePolicy

    spec, how, n = case["spec"], case["how"], case["n"]
    seed_everything(case["seed"])
    real = {k: v for k, v in spec.items() if v[0] != "const" and not v[1].get("is_fidelity")}
    with sut("building the space"):
        space = spaces.build(spec)
        inc = space.sample(ignore_fidelity=False)
    at = 0.5 if how == "mutation" else case["at"]
    best = dict(inc.hp_values())
    for k, (kind, d) in real.items():
        if kind == "float":
            lo, hi = bounds(kind, d)
            v = lo + at * (hi - lo)
            best[k] = min(max(math.exp(v) if d.get("log") else v, d["lower"]), d["upper"])
    kw = {"hypersphere": {"distance": case["distance"]},
          "mutation": {"inc_mutation_rate": case["rate"], "inc_mutation_std": case["std"]}}.get(how, {})
    if how == "hypersphere":
        n = 60
    with sut(f"sampling around the incumbent ({how})"):
        inc = space.from_dict(best)
        policy = EnsemblePolicy(pipeline_space=space, inc_type=how)
        samples = [dict(policy.sample(inc, dict(case["weights"]), **kw).hp_values()) for _ in range(n)]
        after = dict(inc.hp_values())
    expect(all(spaces.same(after[k], best[k]) for k in spec), f"the incumbent {best} became {after}")
    for x in samples:
        spaces.expect_in_space(spec, x, f"sample ({how})", skip=("epochs", "AA", "zz"))
    what = f"{how} {case['weights']} {kw} around {best}"
    ctx.nontrivial(repr(case))
    ctx.label(how)
    if how == "gaussian":
        new = {k: (kind, {**d, "default": best[k],
                          "default_confidence": d.get("default_confidence", "low")})
               for k, (kind, d) in real.items()}
        judge(what, new, samples, 1.0)
        return
    if how == "hypersphere":
        dist = []
        for x in samples:
            d = math.sqrt(sum((pos(*v, x[k]) - pos(*v, best[k])) ** 2 for k, v in real.items()))
            expect(d <= case["distance"] + 1e-6, f"{what}: {x} has the distance {d}")
            dist.append(d)
        mean = sum(dist) / n
        expect(mean > 0.3 * case["distance"], f"{what}: the mean distance is {mean}")
        return
    dims = len(real)
    rate = 0.5 if how == "crossover" else case["rate"]
    q = rate / (1 - (1 - rate) ** dims)  # something is to change
    w = case["weights"]
    for k, (kind, d) in real.items():
        moved = [x for x in samples if not spaces.same(x[k], best[k])]
        share = 1 - w["inc"] * (1 - q)
        expect(abs(len(moved) / n - share) <= Z * math.sqrt(share * (1 - share) / n) + 0.005,
               f"{what}: {k} changed in {len(moved)} of {n} samples, expected {share:.3f}")
        if how == "mutation":
            u = [pos(kind, d, x[k]) - 0.5 for x in moved]
            m = sum(map(abs, u)) / len(u)
            want = case["std"] * math.sqrt(2 / math.pi)
            bound = Z * case["std"] * 0.61 / math.sqrt(len(u)) + 0.002
            expect(abs(m - want) <= bound,
                   f"{what}: {k} moves by {m:.4f} on average, expected {want:.4f} +- {bound:.4f}")
            continue
        # what is taken over comes from the prior, the more so the more the two are alike
        both = w["prior"] + w["inc"]
        alike = 1 - abs(w["prior"] - w["inc"]) / both
        mix = (w["prior"] + w["inc"] * q * alike) / (1 - w["inc"] + w["inc"] * q)
        judge(f"{what}: what is not the incumbent's", {k: (kind, d)}, moved, mix)


FACETS = [
    Facet("around", around_cases, around, quick=60, thorough=800, shards=2,
          rule="every case compares samples with a distribution"),
    Facet("density", density_cases, density, quick=250, thorough=6000, shards=1,
          rule="at least one parameter has a prior, and the configurations differ"),
    Facet("sampling", sample_cases, sampling, quick=70, thorough=800, shards=2,
          rule="samples with priors, and a parameter has one"),
    Facet("searchers", searcher_cases, searchers, quick=40, thorough=800, shards=4,
          rule="every case compares samples of a searcher with a distribution"),
    Facet("first", first_cases, first, quick=120, thorough=2500, shards=1,
          rule="the default is to come first"),
    Facet("pibo", pibo_cases, pibo, quick=30, thorough=500, shards=2,
          rule="every case compares samples of a searcher with a distribution"),
    Facet("weight", weight_cases, weight, quick=150, thorough=3000, shards=1,
          rule="the configurations have different densities"),
    Facet("mixture", mixture_cases, mixture, quick=60, thorough=2000, shards=2,
          rule="the searcher had reached the stage of sampling around the incumbent"),
]
