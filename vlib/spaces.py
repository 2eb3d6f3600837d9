"""Plain-data search-space specifications: generator, builder and membership oracle."""

from __future__ import annotations

import math
from typing import Any

from hypothesis import strategies as st

from vlib.core import expect

NAMES = ["a", "b", "c", "Zeta", "m", "x1", "x10", "_u", "k9", "B"]
CONF = ["low", "medium", "high"]

finite = st.floats(
    min_value=-1e6, max_value=1e6, allow_nan=False, allow_infinity=False, width=64
)


def _nice_float():
    return st.one_of(
        st.sampled_from(
            [0.0, 1.0, -1.0, 0.1, 0.3, 1e-5, 1e-3, 0.7, 2.5, 10.0, 100.0, 1e5, 3.3, -7.25]
        ),
        finite,
    )


@st.composite
def float_param(draw, *, log=None, prior=None, fidelity=False):
    lg = draw(st.booleans()) if log is None else log
    if lg:
        lower = draw(
            st.one_of(
                st.sampled_from([1e-8, 1e-5, 1e-3, 0.1, 0.7, 1.0, 3.0]),
                st.floats(1e-10, 1e3, allow_nan=False),
            )
        )
        ratio = draw(
            st.one_of(st.sampled_from([1.5, 2.0, 10.0, 1e3, 1e5]), st.floats(1.01, 1e6))
        )
        upper = lower * ratio
    else:
        lower = draw(_nice_float())
        width = draw(
            st.one_of(
                st.sampled_from([1.0, 0.1, 0.3, 10.0, 1e-3, 1e4]), st.floats(1e-3, 1e6)
            )
        )
        upper = lower + width
    d: dict[str, Any] = {"lower": lower, "upper": upper, "log": lg}
    if fidelity:
        d["is_fidelity"] = True
    elif draw(st.booleans()) if prior is None else prior:
        u = draw(st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.floats(0, 1)))
        if lg:
            v = math.exp(math.log(lower) + u * (math.log(upper) - math.log(lower)))
        else:
            v = lower + u * (upper - lower)
        if u == 0.0:
            v = lower
        if u == 1.0:
            v = upper
        d["default"] = min(max(v, lower), upper)
        d["default_confidence"] = draw(st.sampled_from(CONF))
    return ("float", d)


@st.composite
def int_param(draw, *, log=None, prior=None, fidelity=False, max_width=1000):
    lg = draw(st.booleans()) if log is None else log
    lower = draw(st.integers(1, 50) if lg or fidelity else st.integers(-100, 100))
    width = draw(st.one_of(st.integers(1, 5), st.integers(1, max_width)))
    d: dict[str, Any] = {"lower": lower, "upper": lower + width, "log": lg}
    if fidelity:
        d["is_fidelity"] = True
    elif draw(st.booleans()) if prior is None else prior:
        d["default"] = draw(st.integers(lower, lower + width))
        d["default_confidence"] = draw(st.sampled_from(CONF))
    return ("int", d)


@st.composite
def cat_param(draw, *, prior=None, many=False):
    kind = draw(
        st.sampled_from(["str", "int", "float", "mixed", "bool"] + ["many"] * bool(many))
    )
    if kind == "many":
        n = draw(st.integers(6, 130))
        form = draw(st.sampled_from(["c%d", "%d", 1, 0.25]))
        choices: list = [form % i if isinstance(form, str) else form * i for i in range(n)]
    elif kind == "bool":
        choices = draw(st.permutations([True, False]))
    elif kind == "str":
        pool = ["adam", "sgd", "x", "yes", "1", "1.0", "null", "on", "Aa", "é", "a b", "#1"]
        choices = draw(st.lists(st.sampled_from(pool), min_size=2, max_size=5, unique=True))
    elif kind == "int":
        choices = draw(
            st.lists(st.integers(-20, 2000), min_size=2, max_size=5, unique=True)
        )
    elif kind == "float":
        pool = [0.5, -1.25, 0.1, 0.333, 1e-4, 2.0, 1e10]
        choices = draw(st.lists(st.sampled_from(pool), min_size=2, max_size=5, unique=True))
    else:
        pool = ["adam", 3, 0.25, "sgd", 7, "z", -2.5]
        choices = draw(st.lists(st.sampled_from(pool), min_size=2, max_size=5, unique=True))
    d: dict[str, Any] = {"choices": list(choices)}
    if draw(st.booleans()) if prior is None else prior:
        d["default"] = draw(st.sampled_from(choices))
        d["default_confidence"] = draw(st.sampled_from(CONF))
    return ("cat", d)


@st.composite
def const_param(draw):
    return (
        "const",
        {"value": draw(st.sampled_from([1, 2.5, "lit", True, -3, 0.0, "0", "x y"]))},
    )


@st.composite
def space_specs(
    draw,
    *,
    min_size=1,
    max_size=5,
    fidelity="maybe",
    prior="maybe",
    constants=True,
    kinds=("float", "int", "cat"),
    names=None,
    many=False,
):
    """A dict name -> (kind, kwargs).  At least one non-constant parameter."""
    n = draw(st.integers(min_size, max_size))
    pool = list(names or NAMES)
    ns = draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n, unique=True))
    p = {"maybe": None, "never": False, "always": True}[prior]
    spec = {}
    table = {
        "float": lambda: float_param(prior=p),
        "int": lambda: int_param(prior=p),
        "cat": lambda: cat_param(prior=p, many=many),
        "const": lambda: const_param(),
    }
    for i, name in enumerate(ns):
        ks = list(kinds)
        if constants and i > 0:
            ks.append("const")
        k = draw(st.sampled_from(ks))
        spec[name] = draw(table[k]())
    fid = draw(st.booleans()) if fidelity == "maybe" else fidelity == "always"
    if fid:
        name = draw(st.sampled_from([x for x in ["epochs", "AA", "zz"] if x not in spec]))
        spec[name] = draw(
            st.one_of(
                int_param(fidelity=True, max_width=200),
                int_param(fidelity=True, log=False, max_width=100),
                float_param(fidelity=True, log=True),
            )
        )
    # the order in which the user writes the parameters down is arbitrary
    order = draw(st.permutations(list(spec)))
    return {k: spec[k] for k in order}


def build_param(kind: str, d: dict):
    from neps.search_spaces import (
        CategoricalParameter,
        ConstantParameter,
        FloatParameter,
        IntegerParameter,
    )

    cls = {
        "float": FloatParameter,
        "int": IntegerParameter,
        "cat": CategoricalParameter,
        "const": ConstantParameter,
    }[kind]
    return cls(**d)


def build_params(spec: dict) -> dict:
    return {k: build_param(*v) for k, v in spec.items()}


def build(spec: dict):
    from neps.search_spaces import SearchSpace

    return SearchSpace(**build_params(spec))


def fidelity_name(spec: dict) -> str | None:
    for k, (_, d) in spec.items():
        if d.get("is_fidelity"):
            return k
    return None


def same(a: Any, b: Any) -> bool:
    """Equality that tells 1 from True and from 1.0."""
    return type(a) is type(b) and a == b


def value_problem(kind: str, d: dict, v: Any) -> str | None:
    """Why v is not a legal value of the parameter, or None."""
    if kind == "float":
        if type(v) is not float or math.isnan(v):
            return f"{v!r} ({type(v).__name__}) is not a float"
        if not d["lower"] <= v <= d["upper"]:
            return f"{v!r} outside [{d['lower']!r}, {d['upper']!r}]"
    elif kind == "int":
        if type(v) is not int:
            return f"{v!r} ({type(v).__name__}) is not an int"
        if not d["lower"] <= v <= d["upper"]:
            return f"{v!r} outside [{d['lower']!r}, {d['upper']!r}]"
    elif kind == "cat":
        if not any(same(v, c) for c in d["choices"]):
            return f"{v!r} is not one of {d['choices']!r}"
    elif kind == "const":
        if not same(v, d["value"]):
            return f"{v!r} is not the constant {d['value']!r}"
    return None


def config_problem(spec: dict, config: dict, *, skip=()) -> str | None:
    if set(config) != set(spec):
        return f"has parameters {sorted(config)}, the space has {sorted(spec)}"
    for k, (kind, d) in spec.items():
        if k in skip:
            continue
        p = value_problem(kind, d, config[k])
        if p is not None:
            return f"{k}: {p}"
    return None


def expect_in_space(spec: dict, config: dict, what: str, *, skip=()) -> None:
    p = config_problem(spec, config, skip=skip)
    expect(p is None, f"{what}: configuration {config!r} is not in the space: {p}")


@st.composite
def values_for(draw, kind: str, d: dict):
    """A legal value of the parameter, with the end points favoured."""
    if kind == "const":
        return d["value"]
    if kind == "cat":
        return draw(st.sampled_from(d["choices"]))
    if kind == "int":
        return draw(
            st.one_of(
                st.sampled_from([d["lower"], d["upper"]]),
                st.integers(d["lower"], d["upper"]),
            )
        )
    return draw(
        st.one_of(
            st.sampled_from([d["lower"], d["upper"]]),
            st.floats(d["lower"], d["upper"], allow_nan=False),
        )
    )


@st.composite
def configs_for(draw, spec: dict):
    return {k: draw(values_for(*v)) for k, v in spec.items()}


def normalize(kind: str, d: dict, v: Any) -> float:
    """Reference position of a numerical value in its range, on its own scale."""
    lo, hi = d["lower"], d["upper"]
    if d.get("log"):
        return (math.log(v) - math.log(lo)) / (math.log(hi) - math.log(lo))
    return (v - lo) / (hi - lo)


def set_config(space, config: dict):
    """A configuration of the space with the given values."""
    c = space.clone()
    for k, v in config.items():
        c[k].set_value(v)
    return c


def values_of(config) -> dict:
    return dict(config.hp_values())
