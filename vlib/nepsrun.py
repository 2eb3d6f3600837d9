"""Bodies and readers shared by the checks that drive neps.run."""

from __future__ import annotations

import os
from pathlib import Path
from typing import Any

from vlib.core import HarnessError


CALLS: list = []  # what generated user code recorded


def simple_space():
    from neps.search_spaces import CategoricalParameter, FloatParameter, IntegerParameter

    return {
        "a": FloatParameter(0.0, 1.0),
        "b": IntegerParameter(1, 50),
        "c": CategoricalParameter(["x", "y", "z"]),
    }


def loss_of(cfg: dict) -> float:
    """A fixed, cheap objective of a configuration."""
    t = 0.0
    for k in sorted(cfg):
        v = cfg[k]
        if isinstance(v, bool):
            t += float(v)
        elif isinstance(v, (int, float)):
            t += float(v) * 0.37
        else:
            t += (sum(map(ord, str(v))) % 17) * 0.11
    return float(round(t, 6))


def trial_id_of(pipeline_directory: Any) -> str:
    name = Path(pipeline_directory).name
    if not name.startswith("config_"):
        raise HarnessError(f"unexpected trial directory name {name}")
    return name[len("config_") :]


def worker(h, root: str, *, seed: int, pauses: int = 1, cost=None, fail=(), **kw):
    """Run neps.run in this worker, telling the parent about every evaluation."""
    import neps

    from vlib.core import seed_everything

    seed_everything(seed)
    counter = {"n": 0}

    def run_pipeline(pipeline_directory, **config):
        tid = trial_id_of(pipeline_directory)
        counter["n"] += 1
        h.tell(("start", tid, dict(config)))
        for _ in range(pauses):
            h.pause(f"evaluating {tid}")
        if counter["n"] in fail:
            h.tell(("fail", tid))
            raise RuntimeError(f"planned failure of {tid}")
        loss = loss_of(config)
        h.tell(("end", tid, loss))
        if cost is None:
            return loss
        return {"loss": loss, "cost": cost, "info_dict": {"worker": h.idx}}

    kw.setdefault("searcher", "random_search")
    neps.run(
        run_pipeline=run_pipeline,
        root_directory=root,
        pipeline_space=simple_space(),
        **kw,
    )
    return counter["n"]


def load_state(root: str | os.PathLike):
    from neps.state.filebased import load_filebased_neps_state

    return load_filebased_neps_state(Path(root))


def read_trials(root: str | os.PathLike) -> dict[str, Any]:
    from neps.state.filebased import load_filebased_neps_state

    return load_filebased_neps_state(Path(root)).get_all_trials()
