"""Histories of workers, one after the other, on one state: model of limits and errors.

The durations of evaluations cannot be predicted, so that the model replays what a worker
did, with the recorded durations: before every evaluation no reason to stop may have been
given, and after the last one there has to be one.
"""

from __future__ import annotations

import time
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any

from hypothesis import strategies as st

from vlib import nepsrun, records
from vlib.core import Violation, expect, seed_everything, sut


class Interrupt(BaseException):
    """What a user's ctrl-c is: not an error of the evaluation."""


class MyError(Exception):
    pass


class OddError(Exception):
    """An exception whose constructor takes other arguments than its message."""

    def __init__(self, a, b):
        super().__init__(f"{a} and {b}")


ERRORS = {
    "ValueError": lambda m: ValueError(m),
    "KeyError": lambda m: KeyError(m),
    "MyError": lambda m: MyError(m),
    "OddError": lambda m: OddError(m, 1),
    "empty": lambda m: RuntimeError(),
    "Assertion": lambda m: AssertionError(m),
    "Memory": lambda m: MemoryError(m),
    "Stop": lambda m: StopIteration(m),
}

quarters = st.integers(0, 12).map(lambda i: i / 4)


@st.composite
def outcomes(draw, p_fail: float, sleeps=(0,)):
    kinds = ["float", "dict", "dict"]
    bad = draw(st.floats(0, 1)) < p_fail
    if bad:
        return {
            "kind": "raise", "exc": draw(st.sampled_from(sorted(ERRORS))),
            "msg": draw(st.sampled_from(["boom", "", "two\nlines", "ünï: [x]", "{a}"])),
            "sleep": draw(st.sampled_from(sleeps)),
        }
    o = {"kind": draw(st.sampled_from(kinds)), "loss": draw(st.integers(-8, 8)) / 2,
         "sleep": draw(st.sampled_from(sleeps))}
    if o["kind"] == "dict":
        o["cost"] = draw(st.one_of(quarters, quarters, st.none()))
        o["lc"] = draw(st.one_of(st.none(), st.lists(quarters, max_size=3)))
    return o


@dataclass
class Mirror:
    """A trial as it must be."""

    id: str
    state: str
    loss: Any = None
    cost: Any = None
    lc: Any = None
    err: str | None = None
    err_type: str | None = None
    worker: str | None = None
    reported: bool = False
    duration: float | None = None


ERR_MODES = ["ignore", "raise_worker_error", "raise_any_error", "stop_worker_error", "stop_any_error"]


def settings_of(s: dict):
    from neps.state.settings import DefaultReportValues, OnErrorPossibilities, WorkerSettings

    d = s["defaults"]
    return WorkerSettings(
        on_error=OnErrorPossibilities(s["on_error"]),
        default_report_values=DefaultReportValues(
            loss_value_on_error=d["loss"], cost_value_on_error=d["cost"],
            cost_if_not_provided=d["cost_missing"], learning_curve_on_error=d["lc_err"],
            learning_curve_if_not_provided=d["lc_missing"],
        ),
        max_evaluations_total=s["total"],
        include_in_progress_evaluations_towards_maximum=s["in_progress"],
        max_cost_total=s["cost"], max_evaluation_time_total_seconds=s["time"],
        max_evaluations_for_worker=s["w_total"], max_cost_for_worker=s["w_cost"],
        max_evaluation_time_for_worker_seconds=s["w_time"],
        max_wallclock_time_for_worker_seconds=s["w_wall"],
    )


@dataclass
class World:
    """The model of everything on disk, and the root it lives in."""

    root: Path
    trials: dict[str, Mirror] = field(default_factory=dict)
    order: list[str] = field(default_factory=list)
    errors: list[tuple] = field(default_factory=list)
    n_eval: int = 0

    def pending(self):
        return [i for i in self.order if self.trials[i].state == "pending"]

    def in_progress(self):
        return [i for i in self.order if self.trials[i].state in ("evaluating", "submitted")]

    # -- reasons to stop, in terms of the documentation of the settings
    def reasons(self, s: dict, mine: list[Mirror], own_error: bool) -> set[str]:
        r = set()
        mode = s["on_error"]
        if own_error and mode != "ignore":
            r.add("own_error")
        if self.errors and mode in ("raise_any_error", "stop_any_error"):
            r.add("any_error")
        done = [m for m in self.trials.values() if m.reported]
        if s["total"] is not None:
            n = len(done) + (len(self.in_progress()) if s["in_progress"] else 0)
            if n >= s["total"]:
                r.add("total")
        if s["cost"] is not None and sum(m.cost or 0 for m in done) >= s["cost"]:
            r.add("cost")
        if s["time"] is not None and sum(m.duration or 0 for m in done) >= s["time"]:
            r.add("time")
        if s["w_total"] is not None and len(mine) >= s["w_total"]:
            r.add("w_total")
        if s["w_cost"] is not None and sum(m.cost or 0 for m in mine) >= s["w_cost"]:
            r.add("w_cost")
        if s["w_time"] is not None and sum(m.duration or 0 for m in mine) >= s["w_time"]:
            r.add("w_time")
        return r

    def settle(self, m: Mirror, o: dict, d: dict, worker: str) -> None:
        """The outcome of one evaluation."""
        m.reported, m.worker = True, worker
        if o["kind"] == "raise":
            e = ERRORS[o["exc"]](o["msg"])
            m.state, m.loss, m.cost, m.lc = "crashed", d["loss"], d["cost"], d["lc_err"]
            m.err, m.err_type = str(e), type(e).__name__
            self.errors.append((m.id, worker, type(e).__name__, str(e)))
            return
        m.state, m.loss = "success", o["loss"]
        cost = o.get("cost")
        m.cost = d["cost_missing"] if cost is None else cost
        lc = o.get("lc")
        if lc is None:
            lc = [o["loss"]] if d["lc_missing"] == "loss" else d["lc_missing"]
        m.lc = lc

    def judge_disk(self, state, what: str) -> None:
        with sut(f"{what}: reading all trials"):
            got = state.get_all_trials()
        expect(set(got) == set(self.trials),
               f"{what}: trials {sorted(got)} on disk, expected {sorted(self.trials)}")
        for i, m in self.trials.items():
            t = got[i]
            expect(t.state.value == m.state, f"{what}: {i} is {t.state.value}, expected {m.state}")
            if not m.reported:
                expect(t.report is None, f"{what}: {i} has a report: {t.report}")
                continue
            r = t.report
            expect(r is not None, f"{what}: {i} has no report")
            expect(r.reported_as == m.state, f"{what}: {i} reported as {r.reported_as}")
            for name, a, b in (("loss", r.loss, m.loss), ("cost", r.cost, m.cost),
                               ("learning curve", r.learning_curve, m.lc)):
                expect(records.same(a, b), f"{what}: the {name} of {i} is {a!r}, expected {b!r}")
            expect((r.err is None) == (m.err is None), f"{what}: {i} has the error {r.err!r}")
            if m.err is not None:
                expect(str(r.err) == m.err and m.err in (r.tb or ""),
                       f"{what}: {i} has the error {r.err!r} with {r.tb!r}, expected {m.err!r}")
            if m.duration is not None:
                expect(r.evaluation_duration == m.duration, f"{what}: the duration of {i} changed")
        with sut(f"{what}: reading the errors"):
            errs = state.get_errors().errs
        log = [(e.trial_id, e.worker_id, e.err_type, e.err) for e in errs]
        expect(log == self.errors, f"{what}: the error log is {log}, expected {self.errors}")


def new_state(root: Path, info=None):
    from neps.state.filebased import create_or_load_filebased_neps_state
    from neps.state.neps_state import OptimizationState, OptimizerInfo
    from neps.state.optimizer import BudgetInfo

    return create_or_load_filebased_neps_state(
        directory=root, optimizer_info=OptimizerInfo(info or {"a": 1}),
        optimizer_state=OptimizationState(
            budget=BudgetInfo(max_cost_budget=10, used_cost_budget=0), shared_state={}),
    )


def optimizer():
    from neps.optimizers.random_search.optimizer import RandomSearch
    from neps.search_spaces import SearchSpace

    return RandomSearch(pipeline_space=SearchSpace(**nepsrun.simple_space()))


CAP = 14


def play(case: dict, ctx) -> dict:
    """Run the history; returns what happened, for the statistics."""
    from neps.exceptions import WorkerRaiseError
    from neps.runtime import DefaultWorker

    seed_everything(case["seed"])
    root = ctx.scratch() / "root"
    api = case.get("api", False)
    w = World(root)
    stats = {"evals": 0, "stops": set(), "raised": 0, "interrupted": 0}
    state = None
    if not api:
        with sut("creating the state"):
            state = new_state(root)

    def handle(fresh: bool):
        nonlocal state
        if state is None or fresh:
            with sut("loading the state"):
                state = nepsrun.load_state(root) if api else new_state(root)
        return state

    for k, op in enumerate(case["ops"]):
        what = f"step {k} {op[0]}"
        if op[0] != "run" and api and not root.exists():
            continue
        if op[0] == "sample":
            for _ in range(op[1]):
                with sut("sampling"):
                    t = handle(False).sample_trial(optimizer=optimizer(), worker_id="other")
                expect(t.id not in w.trials, f"{what}: the id {t.id} is in use")
                w.trials[t.id] = Mirror(t.id, "pending")
                w.order.append(t.id)
        elif op[0] == "steal":
            p = w.pending()
            if not p:
                continue
            i = p[op[1] % len(p)]
            with sut("claiming"):
                t = handle(False).get_trial_by_id(i)
                if op[2] == "submitted":
                    t.set_submitted(time_submitted=time.time())
                else:
                    t.set_evaluating(time_started=time.time(), worker_id="other")
                state.put_updated_trial(t)
            w.trials[i].state = op[2]
        elif op[0] == "report":
            p = w.in_progress()
            if not p:
                continue
            i = p[op[1] % len(p)]
            o, d, m = op[2], op[3], w.trials[i]
            w.settle(m, o, d, "other")
            m.duration = op[4]
            err = ERRORS[o["exc"]](o["msg"]) if o["kind"] == "raise" else None
            with sut("reporting"):
                t = handle(False).get_trial_by_id(i)
                r = t.set_complete(
                    report_as=m.state, time_end=time.time(), loss=m.loss, cost=m.cost,
                    learning_curve=m.lc, err=err, tb=None if err is None else f"tb {err}",
                    extra={}, evaluation_duration=op[4])
                state.report_trial_evaluation(t, r, worker_id="other")
        else:
            run_worker(case, ctx, w, op, handle, what, stats, api, DefaultWorker, WorkerRaiseError)
        if root.exists():
            w.judge_disk(handle(case["fresh"]), what)
    return stats


def run_worker(case, ctx, w, op, handle, what, stats, api, DefaultWorker, WorkerRaiseError):
    s = op[1]
    d = s["defaults"]
    wid = f"w{case['ops'].index(op)}"
    calls: list[tuple] = []
    stamps: list[tuple[float, float]] = []
    raised_here: list[Exception] = []

    def fn(pipeline_directory, **config):
        i = nepsrun.trial_id_of(pipeline_directory)
        t0 = time.monotonic()
        if len(calls) >= CAP:
            calls.append((i, {"kind": "interrupt"}))
            raise Interrupt
        o = case["outcomes"][w.n_eval % len(case["outcomes"])]
        w.n_eval += 1
        calls.append((i, o))
        if o["sleep"]:
            time.sleep(o["sleep"] / 1000)
        stamps.append((t0, time.monotonic()))
        if o["kind"] == "raise":
            e = ERRORS[o["exc"]](o["msg"])
            raised_here.append(e)
            raise e
        if o["kind"] == "float":
            return o["loss"]
        res = {"loss": o["loss"]}
        if o["cost"] is not None:
            res["cost"] = o["cost"]
        if o["lc"] is not None:
            res["learning_curve"] = list(o["lc"])
        return res

    st_before = None if api and not w.root.exists() else handle(op[2])
    raised: BaseException | None = None
    start = time.monotonic()
    try:
        if api:
            import neps

            neps.run(
                run_pipeline=fn, pipeline_space=nepsrun.simple_space(), root_directory=w.root,
                searcher="random_search", post_run_summary=False, **s["api"])
        else:
            worker = DefaultWorker.new(
                state=st_before, optimizer=optimizer(), settings=settings_of(s),
                evaluation_fn=fn, worker_id=wid)
            worker.run()
    except (WorkerRaiseError, Interrupt) as e:
        raised = e
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: the worker fails with {type(e).__name__}: {e}") from e
    elapsed = time.monotonic() - start
    stats["evals"] += len(calls)

    disk = handle(True).get_all_trials()
    mine: list[Mirror] = []
    own_error = False
    for n, (i, o) in enumerate(calls):
        why = w.reasons(s, mine, own_error)
        expect(not why, lambda: f"{what}: evaluation {n} ({i}) starts although the limits"
               f" {sorted(why)} are reached with {s}")
        if s["w_wall"] is not None and n > 0:
            expect(stamps[n - 1][1] - stamps[0][0] < s["w_wall"],
                   f"{what}: evaluation {n} starts although the wallclock limit is reached")
        p = w.pending()
        if p:
            expect(i == p[0], f"{what}: evaluated {i}, the oldest pending trial is {p[0]}")
        else:
            expect(i not in w.trials, f"{what}: evaluated {i}, which is {w.trials.get(i)}")
            w.trials[i] = Mirror(i, "pending")
            w.order.append(i)
        m = w.trials[i]
        expect(i in disk, f"{what}: {i} was evaluated but is not stored")
        if o["kind"] == "interrupt":
            m.state = "evaluating"
            expect(isinstance(raised, Interrupt), f"{what}: the interruption is swallowed")
            stats["interrupted"] += 1
            break
        got_wid = disk[i].metadata.evaluating_worker_id
        if not api:
            expect(got_wid == wid, f"{what}: {i} was evaluated by {got_wid!r}, not {wid!r}")
        w.settle(m, o, d, got_wid)
        rep = disk[i].report
        expect(rep is not None and rep.evaluation_duration is not None,
               f"{what}: {i} has no evaluation duration")
        m.duration = rep.evaluation_duration
        t0, t1 = stamps[n]
        lo, hi = t1 - t0, elapsed
        expect(lo - 1e-6 <= m.duration <= hi + 1e-6,
               f"{what}: the duration of {i} is {m.duration}, it took {lo} of {hi}")
        mine.append(m)
        own_error = own_error or o["kind"] == "raise"
    else:
        why = w.reasons(s, mine, own_error)
        if s["w_wall"] is not None and elapsed >= s["w_wall"]:
            why.add("w_wall")
        expect(why, lambda: f"{what}: the worker stops after {len(calls)} evaluations although"
               f" no limit of {s} is reached; trials {w.trials}")
        stats["stops"] |= why
        # whether it stops with or without an error
        mode = s["on_error"]
        raises = mode == "raise_any_error" and "any_error" in why or (
            mode == "raise_worker_error" and "own_error" in why)
        may = why - {"own_error", "any_error"}
        expect(not isinstance(raised, Interrupt), f"{what}: interrupted by nobody")
        if raises and ("own_error" in why or not may):
            expect(raised is not None, f"{what}: stops silently with {mode} after {why}")
        if not raises:
            expect(raised is None, f"{what}: raises {raised!r} with {mode} and {why}")
        if raised is not None:
            stats["raised"] += 1
            cause = raised.__cause__
            if own_error:
                expect(cause is raised_here[-1], f"{what}: raised from {cause!r}, not the error itself")
            else:
                i, _, et, msg = w.errors[-1]
                expect(cause is not None and et in str(cause) and msg in str(cause) and i in str(cause),
                       f"{what}: raised from {cause!r}, which does not tell {et}: {msg} of {i}")
