"""C21: rungs and brackets follow from the fidelity bounds and eta alone."""

from __future__ import annotations

import math
import random

from hypothesis import strategies as st

from checks.c20_promotion import finish, make_trial
from vlib import mf, spaces
from vlib.core import Facet, expect, seed_everything, sut
from vlib.searchers import searcher

ASSUMPTIONS = [
    "float bounds whose ratio is within 1e-8 of a power of eta, but not up to rounding, are"
    " not generated (both numbers of rungs would be acceptable)",
]


@st.composite
def bounds(draw, eta, max_k):
    """Bounds of a fidelity, often at or next to an exact power of eta."""
    k = draw(st.integers(0, max_k))
    if draw(st.booleans()):
        lower = draw(st.one_of(st.integers(1, 12), st.integers(1, 1000)))
        upper = lower * eta**k + draw(st.sampled_from([0, 0, -1, 1, 5]))
        if upper <= lower:
            upper = lower + 1
        return ("int", {"lower": lower, "upper": upper, "is_fidelity": True,
                        "log": draw(st.booleans())})
    lower = draw(st.one_of(
        st.sampled_from([0.1, 1.0, 0.3, 0.7, 1e-3, 1e-5, 7.0, 3.3]), st.floats(1e-6, 1e3)))
    f = draw(st.sampled_from([1.0, 1.0, 1.1, 1.5, 0.99999]))
    upper = lower * eta**k * f
    if upper <= lower:
        upper = lower * 1.2
    return ("float", {"lower": lower, "upper": upper, "is_fidelity": True,
                      "log": draw(st.booleans())})


def unambiguous(d, eta):
    if isinstance(d["lower"], int):
        return True
    q = math.log(d["upper"] / d["lower"]) / math.log(eta)
    off = abs(q - round(q))
    return off < 1e-13 or off > 1e-8


@st.composite
def rung_cases(draw):
    eta = draw(st.sampled_from([2, 3, 4, 5, 10]))
    kmax = {2: 10, 3: 7, 4: 6, 5: 5, 10: 4}[eta]
    fid = draw(bounds(eta, kmax))
    return {"eta": eta, "fid": fid, "name": draw(st.sampled_from(["asha", "priorband_asha"])),
            "fname": draw(st.sampled_from(["e", "Z"])), "seed": draw(st.integers(0, 999))}


def optimizer(name, spec, eta, **kw):

    with sut(f"creating {name}"):
        return searcher(name)(pipeline_space=spaces.build(spec), budget=100, eta=eta, **kw)


def check_fid(what, got, want, kind, d):
    expect(type(got) is (int if kind == "int" else float), f"{what}: fidelity {got!r} of {kind}")
    expect(d["lower"] <= got <= d["upper"], f"{what}: fidelity {got} is not in {d}")
    expect(math.isclose(got, want, rel_tol=1e-9), f"{what}: fidelity {got}, not {want}")


def rungs(case, ctx):
    eta, (kind, d), fname = case["eta"], case["fid"], case["fname"]
    if not unambiguous(d, eta):
        return
    spec = {"a": ("float", {"lower": 0.0, "upper": 1.0, "default": 0.5}), fname: case["fid"]}
    K = mf.n_rungs(d["lower"], d["upper"], eta)
    fid = [mf.fidelity(d["lower"], d["upper"], eta, K, r, kind == "int") for r in range(K + 1)]
    seed_everything(case["seed"])
    kw = {"sample_default_first": False} if case["name"].startswith("prior") else {}
    opt = optimizer(case["name"], spec, eta, **kw)
    for r in range(-1, K + 1):
        trials = {}
        for c in range(eta if r >= 0 else 0):
            t = make_trial(f"{c}_{r}", {"a": c / eta, fname: fid[r]}, None)
            finish(t, float(c), False)
            trials[t.id] = t
        with sut(f"{case['name']}.ask"):
            got = opt.ask(trials, None)
        what = f"{d} with eta={eta}"
        if r < 0 or r == K:
            # nothing to promote (at the top): a new configuration on the lowest rung
            expect(got.id == f"{len(trials)}_0" and got.previous_config_id is None,
                   f"{what}: after rung {r} of {K} comes {got.id} from {got.previous_config_id}")
            check_fid(what, got.config[fname], fid[0], kind, d)
        else:
            expect(got.id == f"0_{r + 1}" and got.previous_config_id == f"0_{r}",
                   f"{what}: the best of rung {r} of {K} is not promoted, but {got.id} proposed")
            check_fid(what, got.config[fname], fid[r + 1], kind, d)
            if r + 1 == K:
                expect(got.config[fname] == d["upper"],
                       f"{what}: the last rung is {got.config[fname]}, not the maximum")
    ctx.nontrivial(K >= 2)
    ctx.label(f"K={K}", kind)


@st.composite
def bracket_cases(draw):
    eta = draw(st.sampled_from([2, 3, 4]))
    fid = draw(bounds(eta, {2: 4, 3: 3, 4: 2}[eta]))
    return {"eta": eta, "fid": fid, "seed": draw(st.integers(0, 999)),
            "name": draw(st.sampled_from(["hyperband", "successive_halving"])),
            "cycles": draw(st.sampled_from([1, 1, 2]))}


def brackets(case, ctx):
    """One worker: whole brackets, asking the searcher where the phase changes."""
    eta, (kind, d) = case["eta"], case["fid"]
    if not unambiguous(d, eta):
        return
    spec = {"a": ("float", {"lower": 0.0, "upper": 1.0}), "e": case["fid"]}
    K = mf.n_rungs(d["lower"], d["upper"], eta)
    fid = [mf.fidelity(d["lower"], d["upper"], eta, K, r, kind == "int") for r in range(K + 1)]
    rng = random.Random(case["seed"])
    seed_everything(case["seed"])
    opt = optimizer(case["name"], spec, eta)
    hb = case["name"] == "hyperband"
    trials, first, asked = {}, 0, 0
    total = 0
    for i in range(case["cycles"] * ((K + 1) if hb else 1) + 1):
        s = i % (K + 1) if hb else 0
        n = mf.bracket_size(K, eta, s)
        if total + 2 * n > 700:
            break
        alive = list(range(first, first + n))
        first += n
        for r in range(s, K + 1):
            loss = {c: rng.random() for c in alive}
            order = list(alive) if r == s else sorted(alive, key=lambda c: prev_loss[c])
            for j, c in enumerate(order):
                prev = None if r == s else f"{c}_{r - 1}"
                a = trials[prev].config["a"] if prev else rng.random()
                cfg = {"a": a, "e": fid[r]}
                # the first and last of each rung come from the searcher
                if j in (0, len(order) - 1):
                    asked += 1
                    with sut(f"{case['name']}.ask"):
                        got = opt.ask(trials, None)
                    what = f"{case['name']} on {d} with eta={eta}, bracket {i} from rung {s}"
                    gc, gr = got.id.split("_")
                    expect(int(gr) == r, f"{what}: evaluation {j} of {n} on rung {r} is {got.id}")
                    expect(got.previous_config_id == (None if r == s else f"{gc}_{r - 1}"),
                           f"{what}: {got.id} continues {got.previous_config_id}")
                    if r == s:
                        expect(int(gc) == c, f"{what}: {got.id} instead of {c}_{r}")
                    else:
                        expect(int(gc) in alive, f"{what}: {got.id} is not one of the best {alive}")
                        # any order among the best is fine; make theirs ours
                        k = order.index(int(gc))
                        expect(k >= j, f"{what}: {got.id} a second time")
                        order[j], order[k] = order[k], order[j]
                        c = order[j]
                        prev = f"{c}_{r - 1}"
                    cfg = dict(got.config)
                    check_fid(what, cfg["e"], fid[r], kind, d)
                t = make_trial(f"{c}_{r}", cfg, prev)
                finish(t, loss[c], False)
                trials[t.id] = t
                total += 1
            prev_loss = loss
            alive = sorted(alive, key=lambda c: loss[c])[: len(alive) // eta]
    ctx.nontrivial(K >= 1 and asked > 4)
    ctx.label(case["name"], f"K={K}", kind)


FACETS = [
    Facet("rungs", rung_cases, rungs, 260, 6000, 3, rule="at least three rungs"),
    Facet("brackets", bracket_cases, brackets, 60, 1500, 4, rule="at least two rungs"),
]
