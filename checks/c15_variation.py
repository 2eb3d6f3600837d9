"""C15: sampling, mutation and crossover never leave the search space or change their inputs."""

from __future__ import annotations

import math

from hypothesis import strategies as st

from vlib import spaces
from vlib.core import Facet, expect, seed_everything, sut


def snapshot(space):
    """Everything observable about a space / configuration."""
    out = {}
    for k, p in space.hyperparameters.items():
        out[k] = (
            type(p).__name__, p.value, p.default, p.is_fidelity, p.normalized_value,
            getattr(p, "default_confidence_choice", None),
            getattr(p, "lower", None), getattr(p, "upper", None),
            tuple(getattr(p, "choices", ())),
        )
    return out


@st.composite
def cases(draw):
    spec = draw(spaces.space_specs(max_size=5, many=True))
    return {
        "spec": spec,
        "c1": draw(spaces.configs_for(spec)),
        "c2": draw(spaces.configs_for(spec)),
        "seed": draw(st.integers(0, 2**20)),
        "priors": draw(st.booleans()),
        "ignore_fidelity": draw(st.booleans()),
        "prob": draw(st.sampled_from([0.0, 0.5, 1.0, 1.0])),
        "steps": draw(st.integers(1, 6)),
    }


def overwrite(spec, config):
    """Give every parameter of the configuration another value, as a user may do."""
    for k, (kind, d) in spec.items():
        if kind == "const":
            continue
        opts = d["choices"] if kind == "cat" else [d["lower"], d["upper"]]
        cur = config[k].value
        config[k].set_value(next(o for o in opts if not spaces.same(o, cur)))


def check_config(spec, values, what, *, fid_none=False):
    fid = spaces.fidelity_name(spec)
    skip = ()
    if fid is not None and fid_none:
        skip = (fid,)
        expect(values.get(fid) is None, f"{what}: the fidelity is ignored but set")
    spaces.expect_in_space(spec, values, what, skip=skip)


def sample(case, ctx):
    spec = case["spec"]
    space = spaces.build(spec)
    before = snapshot(space)
    seed_everything(case["seed"])
    outs = []
    for _ in range(case["steps"]):
        with sut("sample"):
            outs.append(
                space.sample(
                    user_priors=case["priors"], ignore_fidelity=case["ignore_fidelity"]
                )
            )
    expect(snapshot(space) == before, "sampling changed the space")
    for c in outs:
        check_config(
            spec, spaces.values_of(c), "sample", fid_none=case["ignore_fidelity"]
        )
        expect(
            {k: v[2:4] + v[5:] for k, v in snapshot(c).items()}
            == {k: v[2:4] + v[5:] for k, v in before.items()},
            "a sample has another search space",
        )
    seed_everything(case["seed"])
    with sut("sample again"):
        again = [
            space.sample(
                user_priors=case["priors"], ignore_fidelity=case["ignore_fidelity"]
            )
            for _ in outs
        ]
    expect(
        [spaces.values_of(c) for c in again] == [spaces.values_of(c) for c in outs],
        "the same seed gives other samples",
    )
    for c in outs:
        overwrite(spec, c)
    expect(snapshot(space) == before, "changing a sample changes the space")
    # the default configuration
    fid = spaces.fidelity_name(spec)
    with sut("default configuration"):
        dc = spaces.values_of(
            space.sample_default_configuration(
                ignore_fidelity=case["ignore_fidelity"], ignore_missing_defaults=True
            )
        )
    check_config(spec, dc, "default configuration", fid_none=case["ignore_fidelity"])
    for k, (kind, d) in spec.items():
        if d.get("default") is not None:
            expect(spaces.same(dc[k], d["default"]), f"{k}: default {d['default']!r}, got {dc[k]!r}")
    expect(snapshot(space) == before, "the default configuration changed the space")
    with sut("default configuration"):
        dc2 = space.sample_default_configuration(
            ignore_fidelity=case["ignore_fidelity"], ignore_missing_defaults=True
        )
    overwrite(spec, dc2)
    expect(snapshot(space) == before, "changing the default configuration changes the space")
    missing = [k for k, (kind, d) in spec.items() if kind != "const" and "default" not in d
               and not (k == fid and case["ignore_fidelity"])]
    try:
        space.sample_default_configuration(ignore_fidelity=case["ignore_fidelity"])
        ok = True
    except ValueError:
        ok = False
    expect(ok == (not missing), f"defaults missing for {missing}, accepted: {ok}")
    with sut("default configuration"):
        dc3 = spaces.values_of(space.sample_default_configuration(ignore_missing_defaults=True))
    check_config(spec, dc3, "default configuration", fid_none=True)
    ctx.nontrivial(len(spec) > 1)
    ctx.label("priors" if case["priors"] else "plain", "fidelity" if fid else "no-fidelity")


def mutate(case, ctx):
    """A chain of mutations: every step changes exactly one searchable parameter."""
    spec = case["spec"]
    cur = spaces.set_config(spaces.build(spec), case["c1"])
    fid = spaces.fidelity_name(spec)
    seed_everything(case["seed"])
    changed = set()
    for step in range(case["steps"]):
        before = snapshot(cur)
        with sut("mutate"):
            nxt = cur.mutate()
        expect(snapshot(cur) == before, "mutation changed its input")
        old, new = spaces.values_of(cur), spaces.values_of(nxt)
        check_config(spec, new, f"mutation {step}")
        diff = [k for k in old if not spaces.same(old[k], new[k])]
        expect(len(diff) == 1, f"{len(diff)} parameters changed: {old} -> {new}")
        expect(diff[0] != fid and spec[diff[0]][0] != "const", f"{diff} may not change")
        changed |= set(diff)
        with sut("mutate"):
            other = cur.mutate()
        overwrite(spec, other)
        expect(snapshot(cur) == before, "changing a mutation changes its parent")
        cur = nxt
    ctx.nontrivial(len(changed) > 1)
    ctx.label(f"steps={case['steps']}")


def param_mutate(case, ctx):
    spec = case["spec"]
    space = spaces.set_config(spaces.build(spec), case["c1"])
    fid = spaces.fidelity_name(spec)
    seed_everything(case["seed"])
    n = 0
    for k, (kind, d) in spec.items():
        p = space[k]
        if kind == "const":
            continue
        for strategy in ("simple", "local_search"):
            before = snapshot(space)
            try:
                child = p.mutate(mutation_strategy=strategy)
            except ValueError as e:
                # allowed: fidelities are never mutated; a draw may repeat the value
                expect(
                    k == fid or "same as child" in str(e),
                    f"mutating {k} failed: {e}",
                )
                if k != fid and kind == "float":
                    expect(False, f"mutating the float {k} never changes it: {e}")
                continue
            expect(k != fid, "a fidelity was mutated")
            expect(snapshot(space) == before, "mutation changed its input")
            prob = spaces.value_problem(kind, d, child.value)
            expect(prob is None, f"{k} mutated ({strategy}): {prob}")
            expect(not spaces.same(child.value, p.value), "the child equals the parent")
            n += 1
    ctx.nontrivial(n >= 2)


def crossover(case, ctx):
    spec = case["spec"]
    space = spaces.build(spec)
    a, b = spaces.set_config(space, case["c1"]), spaces.set_config(space, case["c2"])
    fid = spaces.fidelity_name(spec)
    sa, sb = snapshot(a), snapshot(b)
    seed_everything(case["seed"])
    with sut("crossover"):
        x, y = a.crossover(b, crossover_probability_per_hyperparameter=case["prob"])
    expect(snapshot(a) == sa and snapshot(b) == sb, "crossover changed a parent")
    vx, vy = spaces.values_of(x), spaces.values_of(y)
    for who, v in (("first child", vx), ("second child", vy)):
        check_config(spec, v, who)
    for k, (kind, d) in spec.items():
        pair = (case["c1"][k], case["c2"][k])
        if kind == "cat":
            expect(
                all(any(spaces.same(v, p) for p in pair) for v in (vx[k], vy[k])),
                f"{k}: children {vx[k]!r}, {vy[k]!r} of parents {pair}",
            )
            expect(
                (spaces.same(vx[k], pair[0]) and spaces.same(vy[k], pair[1]))
                or (spaces.same(vx[k], pair[1]) and spaces.same(vy[k], pair[0])),
                f"{k}: children {vx[k]!r}, {vy[k]!r} lose a value of their parents {pair}",
            )
        if case["prob"] == 0.0 or k == fid or kind == "const":
            expect(
                spaces.same(vx[k], pair[0]) and spaces.same(vy[k], pair[1]),
                f"{k} is not crossed over but changed",
            )
    overwrite(spec, x)
    overwrite(spec, y)
    expect(
        snapshot(a) == sa and snapshot(b) == sb, "changing a child changes one of its parents"
    )
    ctx.nontrivial(case["c1"] != case["c2"] and case["prob"] > 0)
    ctx.label(f"p={case['prob']}")


@st.composite
def norm_cases(draw):
    kind, d = draw(
        st.one_of(
            spaces.float_param(), spaces.int_param(), spaces.cat_param(many=True),
            spaces.int_param(max_width=100000),
        )
    )
    return {
        "kind": kind, "d": d,
        "values": [draw(spaces.values_for(kind, d)) for _ in range(3)],
        "units": draw(
            st.lists(
                st.one_of(st.sampled_from([0.0, 1.0]), st.floats(0, 1)), min_size=1, max_size=5
            )
        ),
    }


def normalize(case, ctx):
    kind, d = case["kind"], case["d"]
    p = spaces.build_param(kind, d)
    vals = case["values"]
    norm = []
    for v in vals:
        with sut("normalizing"):
            u = p.value_to_normalized(v)
            back = p.normalized_to_value(u)
            q = p.clone()
            q.set_value(v)
        expect(
            q.normalized_value is not None and abs(q.normalized_value - u) < 1e-12,
            f"normalized value {q.normalized_value} of {v}, expected {u}",
        )
        norm.append(u)
        hi = len(d["choices"]) - 1 if kind == "cat" else 1
        expect(-1e-9 <= u <= hi + 1e-9, f"{v!r} -> {u}")
        prob = spaces.value_problem(kind, d, back)
        expect(prob is None, f"{v!r} -> {u} -> {prob}")
        if kind == "float":
            s = spaces.normalize(kind, d, back) - spaces.normalize(kind, d, v)
            lo, hi = d["lower"], d["upper"]
            cond = (
                (1 + max(abs(math.log(lo)), abs(math.log(hi)))) / math.log(hi / lo)
                if d.get("log") else max(1, max(abs(lo), abs(hi)) / (hi - lo))
            )
            expect(abs(s) < 1e-11 * cond, f"{v!r} -> {u} -> {back!r}")
        else:
            expect(spaces.same(back, v), f"{v!r} -> {u} -> {back!r}")
    if kind != "cat":
        order = sorted(range(len(vals)), key=lambda i: vals[i])
        us = [norm[i] for i in order]
        expect(us == sorted(us), f"normalization is not monotone {vals} -> {norm}")
        for u in case["units"]:
            with sut("denormalizing"):
                v = p.normalized_to_value(u)
            prob = spaces.value_problem(kind, d, v)
            expect(prob is None, f"position {u}: {prob}")
            with sut("setting a denormalized value"):
                q = p.clone()
                q.set_value(v)
    ctx.nontrivial(len(set(map(repr, vals))) > 1)
    ctx.label(kind, "log" if d.get("log") else "linear")


@st.composite
def around_cases(draw):
    case = draw(cases())
    case["rate"] = draw(st.sampled_from([0.5, 1.0, 0.0, 0.2]))
    case["std"] = draw(st.sampled_from([0.25, 0.01, 1.0]))
    case["cats"] = draw(st.booleans())
    case["c3"] = draw(spaces.configs_for(case["spec"]))
    case["radius"] = draw(st.sampled_from([0.3, 0.8, 2.0]))
    return case


def distance(spec, params, a, b):
    """Euclidean distance of the normalized numbers + share of different categories."""
    sq, wrong, ncat = 0.0, 0, 0
    for k, (kind, d) in spec.items():
        if kind == "const" or d.get("is_fidelity"):
            continue
        if kind == "cat":
            ncat += 1
            wrong += not spaces.same(a[k], b[k])
        else:
            sq += (params[k].value_to_normalized(a[k]) - params[k].value_to_normalized(b[k])) ** 2
    return math.sqrt(sq) + wrong / (ncat + 1)


def around(case, ctx):
    """What PriorBand samples around its incumbent."""
    from neps.optimizers.multi_fidelity.sampling_policy import EnsemblePolicy
    from neps.optimizers.multi_fidelity_prior.utils import (
        compute_config_dist,
        custom_crossover,
        local_mutation,
    )

    spec = case["spec"]
    fid = spaces.fidelity_name(spec)
    space = spaces.build(spec)
    a, b, c = (spaces.set_config(space, case[k]) for k in ("c1", "c2", "c3"))
    sa, sb, s0 = snapshot(a), snapshot(b), snapshot(space)
    free = [k for k, (kind, d) in spec.items() if kind != "const" and k != fid]

    seed_everything(case["seed"])
    with sut("local_mutation"):
        m = local_mutation(
            a, std=case["std"], mutation_rate=case["rate"], mutate_categoricals=case["cats"]
        )
    expect(snapshot(a) == sa, "mutating around a configuration changed it")
    vm = spaces.values_of(m)
    check_config(spec, vm, "mutation around the incumbent")
    diff = [k for k in spec if not spaces.same(vm[k], case["c1"][k])]
    expect(set(diff) <= set(free), f"{diff} may not be mutated")
    cats = [k for k in diff if spec[k][0] == "cat"]
    expect(case["cats"] or not cats, f"{cats} mutated although categories were excluded")
    if case["rate"] == 0.0:
        expect(not diff, f"{diff} mutated at rate 0")
    if case["rate"] == 1.0:
        must = [k for k in free if case["cats"] or spec[k][0] != "cat"]
        expect(sorted(diff) == sorted(must), f"at rate 1 only {diff} of {must} changed")
    overwrite(spec, m)
    expect(snapshot(a) == sa, "changing the mutation changes its parent")

    with sut("custom_crossover"):
        x = custom_crossover(a, b, crossover_prob=case["prob"])
    expect(
        snapshot(a) == sa and snapshot(b) == sb,
        "crossing over with a configuration changed a parent",
    )
    vx = spaces.values_of(x)
    mixed = all(
        any(spaces.same(vx[k], case[p][k]) for p in (("c1",) if k == fid else ("c1", "c2")))
        for k in spec
    )
    if mixed:
        check_config(spec, vx, "crossover")
    else:
        # only when the parents could not be combined: a new sample
        spaces.expect_in_space(spec, vx, "crossover", skip=(fid,) if fid else ())
        few = sum(not spaces.same(case["c1"][k], case["c2"][k]) for k in free)
        tiny = any(spec[k][0] == "float" and abs(case["c1"][k] - case["c2"][k]) < 1e-7
                   for k in free)
        expect(
            case["prob"] == 0.0 or few == 0 or tiny,
            f"the parents can be combined, got {vx} from {case['c1']} and {case['c2']}",
        )
    if mixed and case["prob"] == 1.0:
        bad = [k for k in free if not spaces.same(vx[k], case["c2"][k])]
        expect(not bad, f"{bad} do not come from the second parent")
    overwrite(spec, x)
    expect(
        snapshot(a) == sa and snapshot(b) == sb and snapshot(space) == s0,
        "changing the child changes a parent",
    )
    a, b = (spaces.set_config(space, case[k]) for k in ("c1", "c2"))

    with sut("normalized values"):
        parts = a.get_normalized_hp_categories(ignore_fidelity=True)
        every = a.get_normalized_hp_categories(ignore_fidelity=False)
    for got, names in ((parts, free), (every, [*free, fid] if fid else free)):
        want = {
            "continuous": [k for k in spec if k in names and spec[k][0] != "cat"],
            "categorical": [k for k in spec if k in names and spec[k][0] == "cat"],
        }
        expect(got["graphs"] == [], "graphs in a space without graphs")
        for part, ks in want.items():
            us = sorted(space[k].value_to_normalized(case["c1"][k]) for k in ks)
            expect(
                len(us) == len(got[part])
                and all(abs(u - g) < 1e-6 for u, g in zip(us, sorted(got[part]))),
                f"{part}: {got[part]}, expected (in any order) {us} of {ks}",
            )
    with sut("distance"):
        dab, dba = compute_config_dist(a, b), compute_config_dist(b, a)
        daa = compute_config_dist(a, a)
    want = distance(spec, space, case["c1"], case["c2"])
    expect(abs(dab - want) < 1e-6 and abs(dba - want) < 1e-6,
           f"distance {dab} (and back {dba}), expected {want}")
    expect(daa == 0, f"distance {daa} of a configuration to itself")
    if fid is None:
        policy = EnsemblePolicy(space, inc_type="hypersphere")
        radius = max(case["radius"], 0.4 * len(free))
        with sut("sample_neighbour"):
            near = policy.sample_neighbour(a, radius)
        check_config(spec, spaces.values_of(near), "neighbour")
        expect(
            distance(spec, space, spaces.values_of(near), case["c1"]) <= radius * 1.5,
            "the neighbour is far outside of its radius",
        )
        expect(snapshot(space) == s0, "sampling a neighbour changed the space")
    ctx.nontrivial(len(diff) >= 1 and case["c1"] != case["c2"])
    ctx.label(f"rate={case['rate']}", f"p={case['prob']}", "mixed" if mixed else "sampled")


FACETS = [
    Facet("sample", cases, sample, 700, 15000, 2, rule="more than one parameter"),
    Facet("mutate", cases, mutate, 700, 15000, 2, rule="at least two parameters were changed"),
    Facet("param_mutate", cases, param_mutate, 500, 10000, 1, rule="two mutations done"),
    Facet("crossover", cases, crossover, 700, 15000, 2,
          rule="the parents differ and something is crossed over"),
    Facet("normalize", norm_cases, normalize, 1500, 30000, 2, rule="two different values"),
    Facet("around", around_cases, around, 500, 10000, 2,
          rule="something was mutated and the parents differ"),
]
