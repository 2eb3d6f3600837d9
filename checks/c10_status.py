"""C10: the status and the summary files show exactly what is in the run directory."""

from __future__ import annotations

import contextlib
import csv
import io
import math
import sys

from hypothesis import strategies as st

from vlib import nepsrun, records, workers
from vlib.core import Facet, expect, seed_everything, sut

ASSUMPTIONS = ["the directory does not change while it is read (C01 has parallel workers)"]


@st.composite
def losses(draw):
    return draw(st.one_of(
        st.sampled_from([0.0, -0.0, 1.0, 1.0, math.inf, -math.inf, math.nan, 1e-300, -1e300]),
        st.floats(-10, 10), st.integers(-5, 5).map(float)))


@st.composite
def entries(draw):
    state = draw(st.sampled_from(["pending", "evaluating", "success", "success", "success", "crashed"]))
    e = {"state": state}
    if state in ("success", "crashed"):
        e["loss"] = draw(losses()) if state == "success" else draw(st.sampled_from([None, -100.0]))
        e["cost"] = draw(st.one_of(st.none(), st.floats(0, 5)))
        e["extra"] = draw(st.sampled_from([{}, {}, {"info_dict": {"x": 1}}, {"acc": 0.5, "note": "a,b"}]))
        e["curve"] = draw(st.sampled_from([None, [1.0, 0.5]]))
    return e


@st.composite
def cases(draw):
    return {
        "entries": draw(st.lists(entries(), max_size=7)),
        "odd": draw(st.booleans()), "seed": draw(st.integers(0, 10**6)),
        "twice": draw(st.booleans()),
    }


def fill(case, root):
    """Write the trials the way workers do; the model of them, in order of their end."""
    import time

    from neps.optimizers.random_search.optimizer import RandomSearch
    from neps.search_spaces import CategoricalParameter, ConstantParameter, SearchSpace

    seed_everything(case["seed"])
    params = nepsrun.simple_space()
    if case["odd"]:
        params["q,x"] = CategoricalParameter(['a,"b', "line\nbreak", "", "None"])
        params["const"] = ConstantParameter(3)
    opt = RandomSearch(pipeline_space=SearchSpace(**params))
    state = workers.new_state(root)
    model = []
    for n, e in enumerate(case["entries"]):
        t = state.sample_trial(optimizer=opt, worker_id="w")
        m = {"id": t.id, "config": dict(t.config), **e}
        if e["state"] != "pending":
            t.set_evaluating(time_started=time.time(), worker_id="w")
            state.put_updated_trial(t)
        if e["state"] in ("success", "crashed"):
            err = ValueError("boom") if e["state"] == "crashed" else None
            r = t.set_complete(
                report_as=e["state"], time_end=1000.0 + n, loss=e["loss"], cost=e["cost"],
                learning_curve=e["curve"], err=err, tb=None, extra=dict(e["extra"]), evaluation_duration=0.1)
            state.report_trial_evaluation(t, r, worker_id="w")
        model.append(m)
    return model


def best_of(model):
    """The configurations that may be shown as the best (several if they tie)."""
    good = [m for m in model if m["state"] == "success" and m["loss"] < math.inf]
    lo = min((m["loss"] for m in good), default=math.inf)
    return lo, [m for m in good if m["loss"] == lo]


def num(s):
    return math.nan if s == "" else float(s)


def decide(case, ctx):
    from neps.status.status import get_summary_dict, post_run_csv, status

    root = ctx.scratch() / "root"
    with sut("creating the run"):
        model = fill(case, root)
    done = [m for m in model if m["state"] in ("success", "crashed")]
    running = [m for m in model if m["state"] == "evaluating"]
    waiting = [m for m in model if m["state"] == "pending"]
    lo, best = best_of(model)

    with sut("get_summary_dict"):
        s = get_summary_dict(root, add_details=True)
        short = get_summary_dict(root)
    n_err = sum(m["state"] == "crashed" for m in done)
    counts = {"num_evaluated_configs": len(done), "num_pending_configs": len(running) + len(waiting),
              "num_pending_configs_with_worker": len(running), "num_error": n_err}
    for k, v in counts.items():
        expect(s[k] == v == short[k], f"{k} is {s[k]} and {short[k]}, expected {v}: {model}")
    expect(s["best_loss"] == lo == short["best_loss"], f"best loss {s['best_loss']}, expected {lo}: {model}")
    if best:
        expect(s["best_config_id"] in {m["id"] for m in best},
               f"best config {s['best_config_id']}, expected {[m['id'] for m in best]}")
        b = next(m for m in best if m["id"] == s["best_config_id"])
        expect(records.same(dict(s["best_config"]), b["config"]), f"best config {s['best_config']}")
        expect(s["best_config_metadata"]["id"] == b["id"], f"metadata {s['best_config_metadata']}")
    else:
        expect(s["best_config_id"] is None and s["best_config"] is None, f"best is {s['best_config_id']}")
    expect(set(s["previous_results"]) == {m["id"] for m in done}, f"results of {set(s['previous_results'])}")
    expect(set(s["pending_configs"]) == {m["id"] for m in running + waiting},
           f"pending are {set(s['pending_configs'])}")
    expect(set(s["pending_configs_free"]) == {m["id"] for m in waiting},
           f"free are {set(s['pending_configs_free'])}")
    for m in done:
        r = s["previous_results"][m["id"]]
        expect(records.same(dict(r.config), m["config"]), f"config of {m['id']} is {r.config}")
        if m["state"] == "crashed":
            expect(r.result == "error" and r.loss == "error", f"{m['id']} crashed, its result is {r.result}")
        else:
            expect(records.same(r.loss, m["loss"]), f"loss of {m['id']} is {r.loss}, not {m['loss']}")
    for m in running + waiting:
        expect(records.same(dict(s["pending_configs"][m["id"]]), m["config"]), f"config of {m['id']}")

    printed(root, status, done, counts, lo, best)

    for _ in range(1 + case["twice"]):
        with sut("post_run_csv"):
            f_conf, f_run = post_run_csv(root)
    expect(root.resolve() in f_conf.parents and root.resolve() in f_run.parents, f"csv at {f_conf}")
    with f_run.open(newline="") as f:
        run_rows = dict(list(csv.reader(f))[1:])
    for k, v in counts.items():
        expect(int(float(run_rows[k])) == v, f"run_status.csv: {k} is {run_rows[k]}, expected {v}")
    expect(float(run_rows["best_loss"]) == lo, f"run_status.csv: best loss {run_rows['best_loss']}, not {lo}")
    if best:
        expect(run_rows["best_config_id"] in {m["id"] for m in best},
               f"run_status.csv: best is {run_rows['best_config_id']}")
    else:
        expect(run_rows["best_config_id"] in ("", "None"), f"best is {run_rows['best_config_id']}")
    with f_conf.open(newline="") as f:
        rows = list(csv.DictReader(f))
    expect(sorted(r["config_id"] for r in rows) == sorted(m["id"] for m in model),
           lambda: f"config_data.csv has {[r['config_id'] for r in rows]}, trials {[m['id'] for m in model]}")
    by = {r["config_id"]: r for r in rows}
    for m in model:
        r = by[m["id"]]
        expect(r["status"] == ("complete" if m in done else "pending"), f"config_data.csv: {m['id']} is {r['status']}")
        for k, v in m["config"].items():
            got = r[f"config.{k}"]
            ok = num(got) == v if isinstance(v, (int, float)) else got.replace("\r\n", "\n") == v
            expect(ok, f"config_data.csv: {k} of {m['id']} is {got!r}, not {v!r}")
        if m["state"] == "success":
            expect(records.same(num(r["result.loss"]), m["loss"]),
                   f"config_data.csv: loss of {m['id']} is {r['result.loss']}, not {m['loss']}")
            if m["cost"] is not None:
                expect(num(r["result.cost"]) == m["cost"], f"config_data.csv: cost of {m['id']}")
            for k, v in m["extra"].items():
                if k != "info_dict":
                    got = r[f"result.{k}"]
                    expect((num(got) if isinstance(v, float) else got) == v, f"config_data.csv: {k} is {got}")
        else:
            expect(r.get("result.loss", "") == "", f"config_data.csv: loss of {m['id']} ({m['state']})")
    order = [num(r["result.loss"]) for r in rows if r.get("result.loss")]
    expect(order == sorted(order), f"config_data.csv is not sorted by loss: {order}")
    ctx.nontrivial(len(done) >= 2 and len(best) >= 1)
    ctx.label(*{m["state"] for m in model})


def printed(root, status, done, counts, lo, best):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), sut("status"):
        prev, pend = status(root, best_losses=True, best_configs=True, all_configs=True)
    expect(set(prev) == {m["id"] for m in done}, f"status returns {set(prev)}")
    text = out.getvalue()
    for k, label in (("num_evaluated_configs", "#Evaluated configs"), ("num_pending_configs", "#Pending configs"),
                     ("num_pending_configs_with_worker", "#Pending configs with worker"),
                     ("num_error", "#Crashed configs")):
        expect(f"{label}: {counts[k]}\n" in text, f"the status does not say '{label}: {counts[k]}': {text}")
    if not done:
        return
    expect(f"Best loss: {lo}\n" in text, f"the status does not say 'Best loss: {lo}': {text}")
    # in the order in which they ended, as generated
    traj, cur = [], math.inf
    for m in done:
        if m["state"] == "success" and m["loss"] < cur:
            cur = m["loss"]
            traj.append(m)
    part = text.split("Best loss across evaluations:\n")[1].split("Best configs and")[0]
    got = [float(x) for x in part.split()]
    expect(got == [m["loss"] for m in traj], f"trajectory {got}, expected {[m['loss'] for m in traj]}")
    ids = [ln.split(": ")[1] for ln in text.split("All evaluated configs")[1].splitlines()
           if ln.startswith("Config ID: ")]
    expect(ids == [m["id"] for m in done], f"all configs are {ids}, expected {[m['id'] for m in done]}")


FACETS = [Facet("status", cases, decide, 200, 6000, 6, rule="two finished trials, one of them the best")]
