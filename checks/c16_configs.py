"""C16: configurations survive serialization, cloning and comparison; illegal values are refused."""

from __future__ import annotations

import math

from hypothesis import strategies as st

from vlib import spaces
from vlib.core import Facet, expect, sut


def observe(p) -> dict:
    """Everything a user can see of a parameter."""
    out = {"type": type(p).__name__, "value": p.value, "default": p.default,
           "fidelity": p.is_fidelity, "norm": p.normalized_value}
    for a in ("lower", "upper", "log", "has_prior", "default_confidence_choice",
              "default_confidence_score"):
        if hasattr(p, a):
            out[a] = getattr(p, a)
    if hasattr(p, "choices"):
        out["choices"] = list(p.choices)
    if p.value is not None and getattr(p, "has_prior", False):
        out["density"] = p.compute_prior(log=False)
    return out


def observe_all(space) -> dict:
    return {k: observe(p) for k, p in space.hyperparameters.items()}


def same_obs(a: dict, b: dict) -> bool:
    return repr(sorted(a.items())) == repr(sorted(b.items()))


# ------------------------------------------------------------------ round trip


@st.composite
def rt_cases(draw):
    spec = draw(spaces.space_specs(max_size=6, many=True))
    cfg = draw(spaces.configs_for(spec))
    return {
        "spec": spec,
        "config": cfg,
        "order": draw(st.permutations(list(spec))),
        "preset": draw(st.none() | spaces.configs_for(spec)),
        "bad": draw(st.sampled_from(sorted(spec))),
        "how": draw(st.sampled_from(["below", "above", "nan", "inf", "far"])),
    }


def illegal(kind, d, how):
    if kind == "cat":
        return {"below": "no such choice", "above": -987654321}.get(how, object())
    if kind == "const":
        return "another value"
    lo, hi = d["lower"], d["upper"]
    if how == "nan":
        return math.nan
    if how == "inf":
        return math.inf
    if kind == "int":
        return {"below": lo - 1, "above": hi + 1, "far": hi + 10**6}[how]
    return {
        "below": math.nextafter(lo, -math.inf),
        "above": math.nextafter(hi, math.inf),
        "far": hi + 10 * (hi - lo),
    }[how]


def roundtrip(case, ctx):
    from neps.utils.files import deserialize, serialize

    spec, config = case["spec"], case["config"]
    space = spaces.build(spec)
    if case["preset"] is not None:
        space = spaces.set_config(space, case["preset"])
    before = observe_all(space)
    with sut("from_dict"):
        cfg = space.from_dict({k: config[k] for k in case["order"]})
    got = spaces.values_of(cfg)
    for k in spec:
        expect(
            spaces.same(got[k], config[k]), f"{k}: gave {config[k]!r}, configuration has {got[k]!r}"
        )
    expect(same_obs(observe_all(space), before), "from_dict changed the space")
    with sut("serialize"):
        ser = cfg.serialize()
        path = ctx.scratch() / "config.yaml"
        serialize(ser, path)
        back = deserialize(path)
        cfg2 = space.from_dict(back)
        eq = cfg2.is_equal_value(cfg) and cfg.is_equal_value(cfg2)
    expect(set(ser) == set(spec), "serialized another set of parameters")
    for k, v in spaces.values_of(cfg2).items():
        expect(spaces.same(v, config[k]), f"{k}: {config[k]!r} came back as {v!r}")
    expect(eq, "the configuration read back is not equal to the one written")
    for k in spec:
        expect(
            same_obs(observe(cfg2[k]), observe(cfg[k])), f"{k}: {observe(cfg2[k])} != {observe(cfg[k])}"
        )
    # illegal values are refused, whichever way they come in
    k = case["bad"]
    kind, d = spec[k]
    v = illegal(kind, d, case["how"])
    for what, f in (
        ("from_dict", lambda: space.from_dict({**config, k: v})),
        ("set_value", lambda: cfg[k].set_value(v)),
        ("set_default", lambda: cfg[k].set_default(v)),
        ("load_from", lambda: cfg[k].load_from(v)),
    ):
        o = observe(cfg[k])
        try:
            f()
            ok = False
        except Exception:  # noqa: BLE001
            ok = True
        expect(ok, f"{what} accepted the illegal value {v!r} for {k}")
        expect(same_obs(observe(cfg[k]), o), f"{what} refused {v!r} but changed {k}")
    try:
        space.from_dict({**config, "no such parameter": 1})
        ok = False
    except Exception:  # noqa: BLE001
        ok = True
    expect(ok, "from_dict accepted an unknown parameter")
    ctx.nontrivial(len(spec) >= 2)
    ctx.label(kind, case["how"])


# ------------------------------------------------------------------ clones and updates


OPS = ["value", "unset", "default", "nodefault", "confidence", "dict", "clone", "mutate"]


@st.composite
def hist_cases(draw):
    spec = draw(spaces.space_specs(max_size=4))
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        op = draw(st.sampled_from(OPS))
        k = draw(st.sampled_from(sorted(spec)))
        who = draw(st.integers(0, 2))
        if op in ("value", "default"):
            ops.append((op, who, k, draw(spaces.values_for(*spec[k]))))
        elif op == "confidence":
            ops.append((op, who, k, draw(st.sampled_from(spaces.CONF))))
        elif op == "dict":
            cfg = draw(spaces.configs_for(spec))
            keep = draw(st.sets(st.sampled_from(sorted(spec)), min_size=1))
            ops.append((op, who, {x: cfg[x] for x in sorted(keep)}, {
                "defaults": draw(st.booleans()),
                "values": draw(st.booleans()),
                "confidence": draw(st.sampled_from(spaces.CONF)),
                "delete_previous_defaults": draw(st.booleans()),
                "delete_previous_values": draw(st.booleans()),
            }))
        else:
            ops.append((op, who, k, draw(st.integers(0, 2))))
    return {"spec": spec, "config": draw(spaces.configs_for(spec)), "ops": ops}


def model_of(spec, config):
    m = {}
    for k, (kind, d) in spec.items():
        m[k] = {
            "value": config[k],
            "default": d["value"] if kind == "const" else d.get("default"),
            "conf": d.get("default_confidence", "low"),
        }
    return m


def histories(case, ctx):
    """Three clones of one configuration are independent of each other: each follows its model."""
    spec = case["spec"]
    base = spaces.set_config(spaces.build(spec), case["config"])
    objs = [base, base.clone(), base.clone()]
    models = [model_of(spec, case["config"]) for _ in objs]
    fid = spaces.fidelity_name(spec)
    dirty = 0
    for op, who, k, arg in case["ops"]:
        o, m = objs[who], models[who]
        if op == "clone":
            if arg != who:
                with sut("clone"):
                    objs[arg] = o.clone()
                models[arg] = {x: dict(y) for x, y in m.items()}
        elif op == "dict":
            if not arg["defaults"] and not arg["values"]:
                continue
            with sut("set_hyperparameters_from_dict"):
                o.set_hyperparameters_from_dict(k, **arg)
            for x, v in k.items():
                if spec[x][0] == "const":
                    continue
                if arg["delete_previous_defaults"]:
                    m[x]["default"] = None
                if arg["delete_previous_values"]:
                    m[x]["value"] = None
                if arg["defaults"]:
                    m[x]["default"], m[x]["conf"] = v, arg["confidence"]
                if arg["values"]:
                    m[x]["value"] = v
            dirty += 1
        elif spec[k][0] == "const":
            continue
        elif op == "value":
            with sut("set_value"):
                o[k].set_value(arg)
            m[k]["value"] = arg
            dirty += 1
        elif op == "unset":
            with sut("set_value(None)"):
                o[k].set_value(None)
            m[k]["value"] = None
        elif op == "default":
            with sut("set_default"):
                o[k].set_default(arg)
            m[k]["default"] = arg
            dirty += 1
        elif op == "nodefault":
            with sut("set_default(None)"):
                o[k].set_default(None)
            m[k]["default"] = None
        elif op == "confidence":
            with sut("set_default_confidence_score"):
                o[k].set_default_confidence_score(arg)
            m[k]["conf"] = arg
        elif op == "mutate" and k != fid and m[k]["value"] is not None:
            # looking for neighbours changes nothing
            with sut("neighbours"):
                o[k].clone()
        for i, (ob, mo) in enumerate(zip(objs, models)):
            for x in spec:
                kind, d = spec[x]
                p = ob[x]
                expect(
                    (p.value is None and mo[x]["value"] is None) or spaces.same(p.value, mo[x]["value"]),
                    f"after {op} on {who}: value of {x} in {i} is {p.value!r}, not {mo[x]['value']!r}",
                )
                expect(
                    (p.default is None and mo[x]["default"] is None)
                    or spaces.same(p.default, mo[x]["default"]),
                    f"after {op} on {who}: default of {x} in {i} is {p.default!r}, not {mo[x]['default']!r}",
                )
                if kind == "const":
                    continue
                expect(
                    p.has_prior == (mo[x]["default"] is not None),
                    f"after {op} on {who}: has_prior of {x} in {i} is {p.has_prior}",
                )
                expect(
                    p.default_confidence_choice == mo[x]["conf"],
                    f"after {op} on {who}: confidence of {x} in {i} is"
                    f" {p.default_confidence_choice}, not {mo[x]['conf']}",
                )
                # what is derived is what a parameter created like this would have
                fresh_d = {a: b for a, b in d.items() if a not in ("default", "default_confidence")}
                fresh_d["default"] = mo[x]["default"]
                fresh_d["default_confidence"] = mo[x]["conf"]
                fresh = spaces.build_param(kind, fresh_d)
                if mo[x]["value"] is not None:
                    fresh.set_value(mo[x]["value"])
                a, b = observe(p), observe(fresh)
                expect(
                    same_obs(a, b),
                    lambda: f"after {op} on {who}: {x} in {i} is {a}, a new one would be {b}",
                )
                with sut("comparing parameters"):
                    e = p == fresh
                expect(bool(e), f"{x} differs from an identical parameter")
    ctx.nontrivial(dirty >= 2)
    ctx.label(*{o[0] for o in case["ops"]})


# ------------------------------------------------------------------ equality


@st.composite
def eq_cases(draw):
    spec = draw(spaces.space_specs(max_size=4))
    a = draw(spaces.configs_for(spec))
    b = draw(spaces.configs_for(spec))
    take = draw(st.sets(st.sampled_from(sorted(spec))))
    b = {k: (b[k] if k in take else a[k]) for k in spec}
    return {"spec": spec, "a": a, "b": b, "fid": draw(st.booleans())}


def equality(case, ctx):
    spec = case["spec"]
    space = spaces.build(spec)
    a, b = spaces.set_config(space, case["a"]), spaces.set_config(space, case["b"])
    fid = spaces.fidelity_name(spec)
    want = True
    for k, (kind, d) in spec.items():
        x, y = case["a"][k], case["b"][k]
        if k == fid and not case["fid"]:
            continue
        if kind == "float":
            diff = abs(spaces.normalize(kind, d, x) - spaces.normalize(kind, d, y))
            if 1e-9 < diff < 1e-8:
                return  # equal or not, depending on rounding
            same = diff <= 1e-9
        else:
            same = x == y
        want = want and same
    with sut("is_equal_value"):
        got = a.is_equal_value(b, include_fidelity=case["fid"])
        rev = b.is_equal_value(a, include_fidelity=case["fid"])
        refl = a.is_equal_value(a.clone())
    expect(bool(got) == want, f"equal: {got}, expected {want}")
    expect(bool(rev) == want, "is_equal_value is not symmetric")
    expect(refl, "a configuration is not equal to its clone")
    # a space with one parameter more or less is different
    if len(spec) > 1:
        sub = {k: v for k, v in spec.items() if k != sorted(spec)[0]}
        c = spaces.set_config(spaces.build(sub), {k: case["a"][k] for k in sub})
        with sut("is_equal_value"):
            e = a.is_equal_value(c) or c.is_equal_value(a)
        expect(not e, "equal to a configuration of another space")
    ctx.nontrivial(case["a"] != case["b"])
    ctx.label("equal" if want else "different")


FACETS = [
    Facet("roundtrip", rt_cases, roundtrip, 900, 20000, 3, rule="at least two parameters"),
    Facet("histories", hist_cases, histories, 900, 20000, 3, rule="at least two updates"),
    Facet("equality", eq_cases, equality, 700, 15000, 2, rule="the configurations differ"),
]
