"""Generators for the things neps keeps on disk, as plain data, and their builders."""

from __future__ import annotations

import math
from typing import Any

from hypothesis import strategies as st

TRICKY = [
    "", " ", "a", "yes", "no", "on", "null", "~", "1", "1.0", "1e5", "1_000", "0x1f", "0o7", ".5",
    "1:30", "2001-01-01", "- a", "a: b", "#x", "é", "日本", "a\nb", "a\n", "\ta", "'", '"', "{}", "[]",
    "!!python/none", "&a", "*a", "%", "@", "`", "key", "trailing ", "\u2028", "\x00", "\x85", "=",
    "<<", "true", "NaN", ".nan", "-.inf", "line1\n  line2\n\nline3\n", "\r\n", "\ufeff", "😀",
]


def texts():
    return st.one_of(
        st.sampled_from(TRICKY),
        st.text(st.characters(blacklist_categories=["Cs"]), max_size=12),
    )


def floats(nan=False):
    return st.one_of(
        st.sampled_from(
            [0.0, -0.0, 1.0, 0.1, 1e-5, 1e16, 1e22, 1e-300, 5e-324, math.inf, -math.inf, 1e100]
        ),
        st.floats(allow_nan=nan),
    )


def plain(max_leaves=8):
    leaves = st.one_of(
        st.none(), st.booleans(), st.integers(-(10**18), 10**18), floats(), texts()
    )
    return st.recursive(
        leaves,
        lambda ch: st.one_of(
            st.lists(ch, max_size=3), st.dictionaries(texts(), ch, max_size=3)
        ),
        max_leaves=max_leaves,
    )


def config_values():
    return st.one_of(st.booleans(), st.integers(-(10**12), 10**12), floats(), texts())


def configs():
    return st.dictionaries(
        st.one_of(st.sampled_from(["a", "lr", "x_1", "loss", "id"]), texts()),
        config_values(), max_size=4,
    )


def extras():
    return st.one_of(
        st.just({}),
        st.dictionaries(texts().filter(lambda s: s not in ("loss", "cost")), plain(4), max_size=3),
        plain(4).map(lambda v: {"info_dict": {"v": v}}),
    )


def maybe(s):
    return st.none() | s


@st.composite
def reports(draw):
    how = draw(st.sampled_from(["success", "success", "crashed", "failed"]))
    return {
        "report_as": how,
        "loss": draw(maybe(floats(nan=True))),
        "cost": draw(maybe(floats(nan=True))),
        "learning_curve": draw(maybe(st.lists(floats(), max_size=4))),
        "extra": draw(extras()),
        "err": draw(texts()) if how != "success" else None,
        "tb": draw(maybe(texts())) if how != "success" else None,
        "time_end": draw(st.floats(0, 2e9)),
        "evaluation_duration": draw(st.floats(0, 1e6)),
    }


STATES = ["pending", "submitted", "evaluating", "reported", "corrupted"]


@st.composite
def trials(draw, ids=st.sampled_from(["1", "2", "10", "1_0", "0_2"])):
    stage = draw(st.sampled_from([*STATES, "reported", "reported"]))
    return {
        "id": draw(ids),
        "config": draw(configs()),
        "previous": draw(maybe(st.tuples(texts(), texts()))),
        "worker": draw(texts()),
        "time_sampled": draw(st.floats(0, 2e9)),
        "stage": stage,
        "time_submitted": draw(maybe(st.floats(0, 2e9))),
        "time_started": draw(st.floats(0, 2e9)),
        "evaluating_worker": draw(texts()),
        "report": draw(reports()) if stage == "reported" else None,
    }


def build_trial(d: dict, location: str = ""):
    """A trial taken through its stages with the methods a worker uses."""
    import copy

    from neps.state.trial import Trial

    prev = d["previous"]
    t = Trial.new(
        trial_id=d["id"],
        config=copy.deepcopy(d["config"]),
        location=location,
        previous_trial=prev[0] if prev else None,
        previous_trial_location=prev[1] if prev else None,
        time_sampled=d["time_sampled"],
        worker_id=d["worker"],
    )
    advance_trial(t, d)
    return t


def advance_trial(t, d: dict):
    import copy

    stage = d["stage"]
    if stage != "pending" and d["time_submitted"] is not None:
        t.set_submitted(time_submitted=d["time_submitted"])
    elif stage == "submitted":
        t.set_submitted(time_submitted=1.5)
    if stage in ("evaluating", "reported", "corrupted"):
        t.set_evaluating(time_started=d["time_started"], worker_id=d["evaluating_worker"])
    if stage == "reported":
        r = copy.deepcopy(d["report"])
        err = r.pop("err")
        t.report = t.set_complete(err=None if err is None else ValueError(err), **r)
    if stage == "corrupted":
        t.set_corrupted()


def plain_trial(t) -> dict[str, Any]:
    """Everything a user can see of a trial, as plain data."""
    m = dict(vars(t.metadata))
    r = None
    if t.report is not None:
        r = dict(vars(t.report))
        r["err"] = None if r["err"] is None else str(r["err"])
    return {"config": dict(t.config), "metadata": m, "state": t.state.value, "report": r}


def same(a: Any, b: Any) -> bool:
    """Equal values of equal types; nan equals nan; 1 is not True and not 1.0."""
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return (a != a and b != b) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    if isinstance(a, dict):
        return set(map(repr, a)) == set(map(repr, b)) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def diff(a: Any, b: Any, at: str = "") -> str:
    """Where two plain values differ."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=repr):
            if k not in a or k not in b:
                return f"{at}/{k!r} only on one side"
            if not same(a[k], b[k]):
                return diff(a[k], b[k], f"{at}/{k!r}")
    return f"{at}: {a!r} became {b!r}"
