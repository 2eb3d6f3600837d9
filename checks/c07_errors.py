"""C07: errors of evaluations stop, raise or are ignored as requested, and none is lost."""

from __future__ import annotations

from checks.c06_limits import api_settings, cases
from vlib import workers
from vlib.core import Facet

ASSUMPTIONS = ["the workers of one history run one after the other (C01 has them in parallel)"]


def decide(case, ctx):
    stats = workers.play(case, ctx)
    errs = stats["stops"] & {"own_error", "any_error"}
    ctx.nontrivial(stats["evals"] >= 1 and any(o["kind"] == "raise" for o in case["outcomes"]))
    ctx.label(*sorted(errs), *(["raised"] if stats["raised"] else []),
              *(["interrupted"] if stats["interrupted"] else []))


FACETS = [
    Facet("policies", lambda: cases(on_error=tuple(workers.ERR_MODES), p_fail=0.35), decide, 220, 6000, 5,
          rule="an evaluation that raises"),
    Facet("api", lambda: cases(api=True, p_fail=0.35, settings_st=lambda: api_settings(p_err=0.9)), decide,
          80, 2500, 5, rule="an evaluation that raises"),
]
