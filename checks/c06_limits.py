"""C06: workers stop exactly when a limit is reached."""

from __future__ import annotations

from hypothesis import strategies as st

from vlib import workers
from vlib.core import Facet

ASSUMPTIONS = [
    "the workers of one history run one after the other (C01 has them in parallel)",
    "costs are multiples of 1/4, so that their sums are exact in any order",
]

quarters = workers.quarters


@st.composite
def defaults(draw):
    return {
        "loss": draw(st.sampled_from([None, 1.5])), "cost": draw(st.sampled_from([None, 0.5, 2.0])),
        "cost_missing": draw(st.sampled_from([None, 0.25, 1.0])),
        "lc_err": draw(st.sampled_from([None, [1.0, 2.0]])),
        "lc_missing": draw(st.sampled_from([None, "loss", [0.5]])),
    }


def rarely(s, p=3):
    return st.one_of(*[st.none()] * p, s)


@st.composite
def settings(draw, timed=False, on_error=("ignore",)):
    s = {
        "on_error": draw(st.sampled_from(on_error)), "defaults": draw(defaults()),
        "total": draw(rarely(st.integers(0, 9), 1)), "in_progress": draw(st.booleans()),
        "cost": draw(rarely(quarters.map(lambda x: x * 3))), "time": None,
        "w_total": draw(rarely(st.integers(0, 5), 1)), "w_cost": draw(rarely(quarters)),
        "w_time": None, "w_wall": None,
    }
    if timed:
        which = draw(st.sampled_from(["time", "w_time", "w_wall"]))
        s[which] = draw(st.sampled_from([0.0, 0.006, 0.012, 0.03]))
        if which == "time":
            s[which] *= 2
        s["total"] = s["w_total"] = None
    return s


@st.composite
def cases(draw, timed=False, on_error=("ignore",), p_fail=0.15, api=False, settings_st=None):
    sleeps = (0, 3, 6) if timed else (0,)
    mk = settings_st or (lambda: settings(timed=timed, on_error=on_error))
    op = st.one_of(
        st.tuples(st.just("run"), mk(), st.booleans()),
        st.tuples(st.just("run"), mk(), st.booleans()),
        st.tuples(st.just("run"), mk(), st.booleans()),
        st.tuples(st.just("sample"), st.integers(1, 3)),
        st.tuples(st.just("steal"), st.integers(0, 3), st.sampled_from(["evaluating", "submitted"])),
        st.tuples(st.just("report"), st.integers(0, 3), workers.outcomes(max(p_fail, 0.3)), defaults(),
                  st.sampled_from([0.0, 0.004, 0.25])),
    )
    return {
        "ops": draw(st.lists(op, min_size=2, max_size=8)),
        "outcomes": draw(st.lists(workers.outcomes(p_fail, sleeps), min_size=1, max_size=6)),
        "fresh": draw(st.booleans()), "seed": draw(st.integers(0, 10**6)), "api": api,
    }


@st.composite
def api_settings(draw, p_err=0.3):
    """What neps.run offers, and what it means for a worker."""
    total = draw(rarely(st.integers(0, 9), 1))
    cost = draw(rarely(quarters.map(lambda x: x * 3), 1))
    if not total and not cost:  # refused
        total = 4
    per = draw(rarely(st.integers(0, 5), 2))
    cont = draw(st.booleans())
    ignore = draw(st.booleans()) or draw(st.floats(0, 1)) > p_err
    loss_err = draw(st.sampled_from([None, None, 1.5, 0.0]))
    cost_err = draw(st.sampled_from([None, 0.5, 0.0]))
    kw = {"max_evaluations_total": total, "max_cost_total": cost, "max_evaluations_per_run": per,
          "continue_until_max_evaluation_completed": cont, "ignore_errors": ignore,
          "loss_value_on_error": loss_err, "cost_value_on_error": cost_err}
    both = loss_err is not None and cost_err is not None
    return {
        "api": kw, "on_error": "ignore" if ignore or both else "raise_any_error",
        "defaults": {"loss": loss_err, "cost": cost_err, "cost_missing": None, "lc_err": None,
                     "lc_missing": "loss"},
        "total": total, "in_progress": not cont, "cost": cost, "time": None, "w_total": per,
        "w_cost": None, "w_time": None, "w_wall": None,
    }


def decide(case, ctx):
    stats = workers.play(case, ctx)
    ctx.nontrivial(stats["evals"] >= 2 and stats["stops"])
    ctx.label(*sorted(stats["stops"]), *(["interrupted"] if stats["interrupted"] else []))


FACETS = [
    Facet("limits", cases, decide, 220, 6000, 5, rule="at least two evaluations and a limit reached"),
    Facet("time", lambda: cases(timed=True), decide, 60, 1500, 2,
          rule="at least two evaluations and a limit reached"),
    Facet("api", lambda: cases(api=True, settings_st=api_settings), decide, 80, 2500, 5,
          rule="at least two evaluations and a limit reached"),
]
