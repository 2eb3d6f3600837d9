"""Histories of a searcher on its own, with several evaluations at a time."""

from __future__ import annotations

import math

from checks.c20_promotion import finish, make_trial
from vlib.core import sut


def simulate(opt, rng, *, steps, workers, p_fail, losses, name="", sub=None):
    """Yield the trials before and what is proposed, for every proposal."""
    trials, running = {}, []
    for _ in range(steps):
        if running and (len(running) >= workers or rng.random() < 0.5):
            tid = running.pop(rng.randrange(len(running)) if rng.random() < 0.7 else 0)
            if rng.random() < p_fail:
                finish(trials[tid], sub, True)
            else:
                finish(trials[tid], losses[rng.randrange(len(losses))] if rng.random() < 0.5
                       else rng.uniform(-5, 5), False)
            continue
        before = dict(trials)
        items = list(trials.items())
        rng.shuffle(items)
        with sut(f"{name}.ask"):
            p = opt.ask(dict(items), None)
        yield before, p
        trials[p.id] = make_trial(p.id, dict(p.config), p.previous_config_id)
        running.append(p.id)


def loss_of(trial, sub=None):
    """None while running; what failed or has no number is not better than others."""
    if trial.report is None:
        return None
    if trial.report.err is not None:
        return math.inf if sub is None else sub
    loss = trial.report.loss
    return math.inf if loss is None or loss != loss else loss


def table(trials):
    """config -> rung -> trial"""
    out = {}
    for tid, t in trials.items():
        c, r = map(int, tid.split("_"))
        out.setdefault(c, {})[r] = t
    return out
