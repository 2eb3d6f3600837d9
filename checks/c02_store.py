"""C02: the shared store rejects stale writes and shows every accepted one."""

from __future__ import annotations

import copy
import math

from hypothesis import strategies as st

from vlib import records as R
from vlib.core import Facet, expect, sut

ASSUMPTIONS = [
    "the workers of a history are separate handles on one directory whose operations do not"
    " overlap in time (overlapping workers are C01); locks held across operations are included",
]

KINDS = ["trial", "errors", "optimizer_state", "optimizer_info", "seed"]


# ------------------------------------------------------------------ one resource, several handles


def data_of(kind):
    if kind == "trial":
        return R.trials(ids=st.just("1"))
    if kind == "errors":
        return st.lists(
            st.tuples(R.texts(), R.texts(), R.texts(), R.texts(), R.maybe(R.texts())), max_size=3
        )
    if kind == "optimizer_state":
        return st.fixed_dictionaries({
            "budget": R.maybe(st.tuples(
                R.maybe(st.floats(0, 1e6)), st.floats(0, 1e6), R.maybe(st.integers(0, 99)),
                st.integers(0, 99))),
            "shared": st.dictionaries(R.texts(), R.plain(3), max_size=2),
        })
    if kind == "optimizer_info":
        return st.dictionaries(R.texts(), R.plain(3), max_size=3)
    return st.tuples(st.integers(0, 10**6), st.integers(0, 5), st.booleans())


def build(kind, d):
    if kind == "trial":
        return R.build_trial(d, "loc")
    if kind == "errors":
        from neps.state.err_dump import ErrDump

        return ErrDump([
            ErrDump.SerializableTrialError(trial_id=a, worker_id=b, err_type=c, err=e, tb=f)
            for a, b, c, e, f in d
        ])
    if kind == "optimizer_state":
        from neps.state.optimizer import BudgetInfo, OptimizationState

        b = d["budget"]
        return OptimizationState(
            budget=None if b is None else BudgetInfo(*b), shared_state=copy.deepcopy(d["shared"])
        )
    if kind == "optimizer_info":
        from neps.state.optimizer import OptimizerInfo

        return OptimizerInfo(info=copy.deepcopy(d))
    return seed_snapshot(d)


def seed_snapshot(d):
    import random

    import numpy as np
    import torch

    from neps.state.seed_snapshot import SeedSnapshot

    from vlib.core import seed_everything

    s, n, gauss = d
    seed_everything(s)
    for _ in range(n):
        random.random(), np.random.rand(), torch.rand(1)
    if gauss:
        random.gauss(0, 1), np.random.randn(), torch.randn(1)
    return SeedSnapshot.new_capture()


def plain(kind, obj):
    if kind == "trial":
        p = R.plain_trial(obj)
        return p
    if kind == "errors":
        return [dict(vars(e)) for e in obj.errs]
    if kind == "optimizer_state":
        return {
            "budget": None if obj.budget is None else dict(vars(obj.budget)),
            "shared": dict(obj.shared_state),
        }
    if kind == "optimizer_info":
        return dict(obj.info)
    return {
        "np": [obj.np_rng[0], [int(x) for x in obj.np_rng[1]], *[float(x) for x in obj.np_rng[2:]]],
        "py": [obj.py_rng[0], list(obj.py_rng[1]), obj.py_rng[2]],
        "torch": None if obj.torch_rng is None else obj.torch_rng.tolist(),
    }


OPS = ["get", "get", "put", "put", "put", "put", "put", "update", "update", "abandon", "new", "new_or_load", "load",
       "copy", "locked", "stale", "mutate"]


@st.composite
def resource_cases(draw):
    kind = draw(st.sampled_from(KINDS))
    ds = data_of(kind)
    ops = draw(st.lists(
        st.tuples(st.sampled_from(OPS), st.integers(0, 2), ds, st.integers(0, 2)),
        min_size=2, max_size=14,
    ))
    return {"kind": kind, "first": draw(ds), "ops": ops, "early": draw(st.booleans()),
            "report": draw(R.reports()) if kind == "trial" else None}


def make(kind, loc):
    from neps.state import filebased as fb

    rw = {
        "trial": fb.ReaderWriterTrial, "seed": fb.ReaderWriterSeedSnapshot,
        "optimizer_state": fb.ReaderWriterOptimizationState,
        "optimizer_info": fb.ReaderWriterOptimizerInfo,
        "errors": lambda: fb.ReaderWriterErrDump("all"),
    }[kind]()
    return {
        "location": loc,
        "versioner": fb.FileVersioner(version_file=loc / ".version"),
        "locker": fb.FileLocker(lock_path=loc / ".lock", poll=0.01, timeout=0.03),
        "reader_writer": rw,
    }


def refused(what, exc, f):
    try:
        f()
    except exc:
        return
    except Exception as e:  # noqa: BLE001
        from vlib.core import Violation

        raise Violation(f"{what}: {type(e).__name__}: {str(e)[:200]}, not {exc}") from e
    expect(False, f"{what} was not refused")


def resource(case, ctx):
    import portalocker as pl

    from neps.state.protocols import Synced, VersionedResource

    kind = case["kind"]
    loc = ctx.scratch() / "res"
    if case["early"]:
        refused("loading what does not exist", VersionedResource.VersionedResourceDoesNotExistsError,
                lambda: Synced.load(**make(kind, loc)))
    with sut("Synced.new"):
        h0 = Synced.new(data=build(kind, case["first"]), **make(kind, loc))
        handles = [h0, Synced.load(**make(kind, loc)), Synced.load(**make(kind, loc))]
    truth = plain(kind, build(kind, case["first"]))
    version = 0
    seen = [0, 0, 0]
    accepted = rejected = 0

    def check_all(what):
        with sut("reading"):
            got = plain(kind, Synced.load(**make(kind, loc)).synced())
        expect(R.same(got, truth), lambda: f"after {what} a new reader sees {R.diff(truth, got)}")

    for op, i, data, j in case["ops"]:
        h = handles[i]
        if kind == "trial" and truth["report"] is not None and data["report"] is None:
            data = {**data, "stage": "reported", "report": case["report"]}  # reports are for good
        new = build(kind, data)
        if op == "get":
            with sut("synced"):
                got = plain(kind, h.synced())
            seen[i] = version
            expect(R.same(got, truth), lambda: f"handle {i} reads {R.diff(truth, got)}")
        elif op == "stale":
            with sut("_is_stale"):
                s = h._is_stale()
            expect(bool(s) == (seen[i] != version), f"handle {i}: stale={s}, behind={version - seen[i]}")
        elif op == "put":
            if seen[i] == version:
                with sut("put"):
                    h.put(new)
                truth, version = plain(kind, build(kind, data)), version + 1
                seen[i] = version
                accepted += 1
            else:
                refused(f"put by handle {i} that has not seen the last change",
                        Synced.VersionMismatchError, lambda: h.put(new))
                rejected += 1
            check_all("put")
        elif op == "update":
            with sut("acquire"):
                with h.acquire() as (cur, put):
                    got = plain(kind, cur)
                    put(new)
            expect(R.same(got, truth), lambda: f"acquire of {i} gives {R.diff(truth, got)}")
            truth, version = plain(kind, build(kind, data)), version + 1
            seen[i] = version
            accepted += 1
            check_all("update")
        elif op == "abandon":
            try:
                with h.acquire() as (cur, put):
                    raise KeyError("user code")
            except KeyError:
                pass
            seen[i] = version
            expect(not h._is_locked(), "the lock is kept after an exception")
            check_all("an abandoned update")
        elif op == "new":
            refused("creating what exists", Synced.VersionedResourceAlreadyExistsError,
                    lambda: Synced.new(data=new, **make(kind, loc)))
            check_all("a second creation")
        elif op in ("new_or_load", "load"):
            with sut(op):
                handles[i] = (
                    Synced.new_or_load(data=new, **make(kind, loc)) if op == "new_or_load"
                    else Synced.load(**make(kind, loc))
                )
            seen[i] = version
            got = plain(kind, handles[i]._unsynced())
            expect(R.same(got, truth), lambda: f"{op} gives {R.diff(truth, got)}")
            check_all(op)
        elif op == "copy":
            with sut("deepcopy"):
                handles[j] = h.deepcopy()
            seen[j] = seen[i]
        elif op == "mutate":
            # what a handle hands out for writing reaches nobody else unless it is put
            with sut("synced"):
                c = h.deepcopy().synced()
            if kind == "errors":
                c.errs.clear()
            elif kind == "optimizer_state":
                c.shared_state["dirty"] = 1
            elif kind == "trial":
                c.set_corrupted()
            check_all("a change that was not put")
        elif op == "locked" and i != j:
            with sut("acquire"):
                with h.acquire() as (cur, put):
                    other = handles[j] if handles[j] is not h else Synced.load
                    expect(handles[j]._is_locked(), "the resource is not locked within acquire")
                    refused("reading a locked resource", pl.exceptions.LockException,
                            lambda: handles[j].synced())
                    refused("writing a locked resource", pl.exceptions.LockException,
                            lambda: handles[j].put(new))
            seen[i] = version
            expect(not h._is_locked(), "the resource stays locked")
            check_all("a lock")
    # at the end every handle catches up
    for i, h in enumerate(handles):
        with sut("synced"):
            got = plain(kind, h.synced())
        expect(R.same(got, truth), lambda: f"in the end handle {i} reads {R.diff(truth, got)}")
    ctx.nontrivial(accepted >= 1 and rejected >= 1)
    ctx.label(kind, f"rejected={min(rejected, 3)}")


# ------------------------------------------------------------------ the whole state


class Stub:
    """An optimizer that proposes what the history says and looks at what it is given."""

    def __init__(self):
        self.next = None
        self.seen = None
        self.budget = None

    def ask(self, trials, budget_info):
        self.seen = {k: R.plain_trial(v) for k, v in trials.items()}
        self.budget = None if budget_info is None else dict(vars(budget_info))
        if budget_info is not None:
            budget_info.used_cost_budget = -1.0  # optimizers cannot change the budget
        if isinstance(self.next, Exception):
            raise self.next
        return self.next


SOPS = ["sample", "sample", "claim", "claim", "claim", "report", "report", "report", "get", "all", "pending",
        "badsample", "failsample", "dupsample", "errors", "reload"]


@st.composite
def state_cases(draw):
    ops = draw(st.lists(
        st.tuples(
            st.sampled_from(SOPS), st.integers(0, 2), st.integers(0, 5),
            R.configs(), R.reports(), st.booleans(),
        ),
        min_size=4, max_size=22,
    ))
    first = draw(st.sampled_from(["sample", "pending"]))
    ops = [("sample", *ops[0][1:]), (first, *ops[1][1:]), *ops[2:]]
    return {
        "ops": ops,
        "budget": draw(R.maybe(st.tuples(st.floats(1, 1e4), st.integers(1, 99)))),
        "handles": draw(st.integers(2, 3)),
        "names": draw(st.sampled_from(NAMES)),
    }


# how the optimizer names its trials: the order of the names need not be that of the samples
NAMES = ["count", "past ten", "rungs", "down", "words"]


def name_of(names, k):
    if names == "count":
        return str(k + 1)
    if names == "past ten":
        return str(k + 9)
    if names == "rungs":
        return f"{(k * 5) % 7}_{k // 7}"
    if names == "down":
        return str(99 - k)
    return ["pear", "apple", "fig", "kiwi", "date"][k % 5] + ("" if k < 5 else str(k))


def neps_state(case, ctx):
    from neps.optimizers.base_optimizer import SampledConfig
    from neps.state.filebased import (
        create_or_load_filebased_neps_state,
        load_filebased_neps_state,
    )
    from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo
    from neps.state.protocols import Synced, TrialRepo

    root = ctx.scratch() / "root"
    b = case["budget"]

    def create():
        return create_or_load_filebased_neps_state(
            root, optimizer_info=OptimizerInfo({"name": "stub"}),
            optimizer_state=OptimizationState(
                budget=None if b is None else BudgetInfo(max_cost_budget=b[0], max_evaluations=b[1]),
                shared_state={},
            ),
        )

    with sut("creating the state"):
        states = [create() for _ in range(case["handles"])]
    n = len(states)
    known = [dict() for _ in range(n)]  # per handle: trial id -> version it last saw
    truth: dict = {}  # id -> plain trial
    version: dict = {}
    order: list = []
    errors: list = []
    cost = 0.0
    shared: dict = {}
    count = {"sampled": 0, "rejected": 0, "reported": 0}

    def saw_all(i):
        known[i].update(version)

    def check():
        with sut("load"):
            s = load_filebased_neps_state(root)
            got = {k: R.plain_trial(t) for k, t in s.get_all_trials().items()}
            ids = s.all_trial_ids()
            errs = [dict(vars(e)) for e in s.get_errors().errs]
            ost = s.optimizer_state()
        expect(ids == set(truth), f"trials {sorted(ids)}, expected {sorted(truth)}")
        for k in truth:
            expect(R.same(got[k], truth[k]), lambda: f"trial {k}: {R.diff(truth[k], got[k])}")
        expect(R.same(errs, errors), lambda: f"errors {errs}, expected {errors}")
        if b is None:
            expect(ost.budget is None, "a budget appeared")
        else:
            u = ost.budget.used_cost_budget
            expect(
                math.isclose(u, cost, rel_tol=1e-9, abs_tol=1e-9) or u == cost or (u != u and cost != cost),
                f"used cost {u}, expected {cost}",
            )
            expect(ost.budget.max_cost_budget == b[0] and ost.budget.max_evaluations == b[1],
                   "the limits changed")
        expect(R.same(dict(ost.shared_state), shared), "the state of the optimizer changed")

    for op, i, j, cfg, rep, flag in case["ops"]:
        i %= n
        s = states[i]
        stub = Stub()
        if op in ("sample", "badsample", "failsample", "dupsample"):
            tid = name_of(case["names"], len(order))
            prev = order[j % len(order)] if order and flag else None
            if op == "badsample":
                stub.next = SampledConfig(id=tid, config=cfg, previous_config_id="nobody")
            elif op == "failsample":
                stub.next = RuntimeError("no idea")
            elif op == "dupsample":
                if not order:
                    continue
                stub.next = SampledConfig(id=order[j % len(order)], config=cfg)
            else:
                stub.next = SampledConfig(id=tid, config=cfg, previous_config_id=prev)
                if j % 3 == 0:
                    shared = {"step": len(order), "note": "x"}
                    stub.next = (stub.next, dict(shared))
            if op == "sample":
                with sut("sample_trial"):
                    t = s.sample_trial(stub, worker_id=f"w{i}")
                p = R.plain_trial(t)
                expect(p["state"] == "pending" and p["report"] is None, "a new trial is not pending")
                expect(R.same(p["config"], cfg), "the trial has another configuration")
                m = p["metadata"]
                expect(m["id"] == tid and m["sampling_worker_id"] == f"w{i}"
                       and m["previous_trial_id"] == prev, f"metadata {m}")
                expect(m["previous_trial_location"] == (truth[prev]["metadata"]["location"] if prev else None),
                       f"location of the previous trial {m['previous_trial_location']}")
                expect(m["location"].endswith(f"config_{tid}"), f"location {m['location']}")
                truth[tid], version[tid] = copy.deepcopy(p), 0
                order.append(tid)
                count["sampled"] += 1
            elif op == "badsample":
                refused("an unknown previous trial", ValueError, lambda: s.sample_trial(stub, worker_id="w"))
            elif op == "failsample":
                refused("a failing optimizer", RuntimeError, lambda: s.sample_trial(stub, worker_id="w"))
            else:
                refused("an id that is in use", TrialRepo.TrialAlreadyExistsError,
                        lambda: s.sample_trial(stub, worker_id="w"))
            if op == "sample":
                want = {k: v for k, v in truth.items() if k != tid}
            else:
                want = truth
            expect(set(stub.seen) == set(want), f"the optimizer saw {sorted(stub.seen)} of {sorted(want)}")
            for k in want:
                expect(R.same(stub.seen[k], want[k]),
                       lambda: f"the optimizer saw an old trial {k}: {R.diff(want[k], stub.seen[k])}")
            if b is not None:
                u = stub.budget["used_cost_budget"]
                expect(math.isclose(u, cost, rel_tol=1e-9, abs_tol=1e-9) or (u != u and cost != cost) or u == cost,
                       f"the optimizer saw a used cost of {u}, not {cost}")
            saw_all(i)
        elif op == "get":
            if flag or not order:
                refused("an unknown trial", TrialRepo.TrialNotFoundError, lambda: s.get_trial_by_id("nobody"))
            else:
                k = order[j % len(order)]
                with sut("get_trial_by_id"):
                    got = R.plain_trial(s.get_trial_by_id(k))
                known[i][k] = version[k]
                expect(R.same(got, truth[k]), lambda: f"trial {k}: {R.diff(truth[k], got)}")
        elif op == "all":
            with sut("get_all_trials"):
                got = {k: R.plain_trial(t) for k, t in s.get_all_trials().items()}
            saw_all(i)
            expect(set(got) == set(truth) == s.all_trial_ids(), f"trials {sorted(got)}, not {sorted(truth)}")
            for k in truth:
                expect(R.same(got[k], truth[k]), lambda: f"trial {k}: {R.diff(truth[k], got[k])}")
        elif op == "pending":
            want = [k for k in order if truth[k]["state"] == "pending"]
            with sut("get_next_pending_trial"):
                one = s.get_next_pending_trial()
                many = s.get_next_pending_trial(j)
            saw_all(i)
            expect((one.id if one else None) == (want[0] if want else None),
                   f"next pending {one and one.id}, expected {want[:1]}")
            expect([t.id for t in many] == want[:j], f"pending {[t.id for t in many]}, expected {want[:j]}")
        elif op in ("claim", "report"):
            if not order:
                continue
            k = order[j % len(order)]
            # flag: with a fresh look at the trial; otherwise with what this handle knew before
            if flag or k not in known[i]:
                with sut("get_trial_by_id"):
                    t = copy.deepcopy(s.get_trial_by_id(k))
                known[i][k] = version[k]
            else:
                t = copy.deepcopy(s._trials.get_by_id(k)._unsynced())
            ok = known[i][k] == version[k]
            if op == "claim":
                t.set_evaluating(time_started=1.0 + len(cfg), worker_id=f"w{i}")
                p = copy.deepcopy(R.plain_trial(t))
                f = lambda: s.put_updated_trial(t)  # noqa: E731
            else:
                r = dict(rep)
                err = r.pop("err")
                exc = None if err is None else ValueError(err)
                report = t.set_complete(err=exc, **copy.deepcopy(r))
                t2 = copy.deepcopy(t)
                t2.report = copy.deepcopy(report)
                p = R.plain_trial(t2)
                f = lambda: s.report_trial_evaluation(t, report, worker_id=f"w{i}")  # noqa: E731
            if ok:
                with sut(op):
                    f()
                truth[k], version[k] = p, version[k] + 1
                known[i][k] = version[k]
                if op == "report":
                    count["reported"] += 1
                    if rep["cost"] is not None:
                        cost += rep["cost"]
                    if rep["err"] is not None:
                        errors.append({"trial_id": k, "worker_id": f"w{i}", "err_type": "ValueError",
                                       "err": rep["err"], "tb": rep["tb"]})
            else:
                refused(f"{op} by a worker with an old view of {k}", Synced.VersionMismatchError, f)
                count["rejected"] += 1
        elif op == "errors":
            with sut("get_errors"):
                e = s.get_errors()
                last = e.latest_err_as_raisable()
            expect(len(e) == len(errors) and bool(e) == bool(errors) and e.empty() == (not errors), "errors")
            expect((last is None) == (not errors), "latest error")
            if errors:
                expect(errors[-1]["err"] in str(last) and errors[-1]["trial_id"] in str(last),
                       "the latest error is not the last one")
        elif op == "reload":
            with sut("loading"):
                states[i] = create() if flag else load_filebased_neps_state(root)
            known[i] = {}
        check()
    ctx.nontrivial(count["reported"] >= 1 and count["sampled"] >= 2)
    ctx.label(f"rejected={min(count['rejected'], 3)}", f"sampled={count['sampled']}")


FACETS = [
    Facet("resource", resource_cases, resource, 500, 12000, 3,
          rule="at least one accepted and one rejected write"),
    Facet("state", state_cases, neps_state, 260, 8000, 4,
          rule="at least two trials and one accepted report"),
]
