"""C01: exclusive claims and lossless results under every interleaving of workers."""

from __future__ import annotations

from collections import Counter

from hypothesis import strategies as st

from vlib import nepsrun
from vlib.core import Facet, expect, sut
from vlib.sched import Sched

JOBS = 12
LEVEL = "exploration"
ASSUMPTIONS = [
    "workers are forked processes of one host sharing a local file system with working flock",
    "scheduling points are the file-system operations below the root directory and the"
    " evaluation itself; code between two such points of one process is not interleaved",
]


@st.composite
def cases(draw):
    n = draw(st.integers(2, 4))
    mode = draw(st.sampled_from(["total", "total_completed", "per_run", "both"]))
    c = {
        "workers": n,
        "mode": mode,
        "total": draw(st.integers(1, 6)),
        "per_run": draw(st.integers(1, 3)),
        "summary": draw(st.booleans()),
        "preexisting": draw(st.booleans()),
        "searcher": draw(
            st.sampled_from(["random_search", "random_search", "bayesian_optimization"])
        ),
        "seed": draw(st.integers(0, 999)),
        # when each further worker is started, in scheduler decisions
        "starts": draw(st.lists(st.integers(0, 60), min_size=n - 1, max_size=n - 1)),
        # the schedule: which worker runs next and for how many operations
        "schedule": draw(
            st.lists(
                st.tuples(st.integers(0, n - 1), st.integers(1, 40)),
                max_size=120,
            )
        ),
        # what a burst counts: any file operation, or lock acquisitions
        "grain": draw(st.sampled_from(["op", "lock", "lock"])),
        "tail": draw(st.integers(0, 2**16)),
        "pauses": draw(st.integers(0, 3)),
        "cost": draw(st.sampled_from([None, 0.5, 2.0])),
        # which evaluations of each worker fail (with errors ignored)
        "fail": draw(
            st.lists(
                st.sets(st.integers(1, 4), max_size=2), min_size=n, max_size=n
            )
        ) if draw(st.booleans()) else [set()] * n,
    }
    return c


def drive(s: Sched, bodies, case) -> bool:
    """Start the workers and follow the schedule.  False if the step bound was hit."""
    import random

    rnd = random.Random(case["tail"])
    starts = sorted([(0, 0)] + [(t, i + 1) for i, t in enumerate(case["starts"])])
    ws = {}
    decisions = 0
    plan = list(case["schedule"])
    n = case["workers"]
    while True:
        while starts and (starts[0][0] <= decisions):
            _, i = starts.pop(0)
            ws[i] = s.spawn(bodies[i])
        live = [i for i, w in ws.items() if not w.done]
        if not live:
            if not starts:
                return True
            decisions = starts[0][0]
            continue
        if plan:
            i, burst = plan.pop(0)
        else:
            i, burst = rnd.randrange(n), rnd.choice(
                [1, 2, 3, 5, 8, 20, 60] if case["grain"] == "op" else [1, 1, 1, 2, 3, 5, 9]
            )
        decisions += 1
        if i not in ws or ws[i].done:
            i = live[i % len(live)]
        s.burst(ws[i], burst, case["grain"])
        if s.total > s.max_steps:
            return False


def run_case(case, ctx):
    root = ctx.scratch() / "root"
    if case["preexisting"]:
        root.mkdir()
    fails = any(case["fail"])
    kw = dict(ignore_errors=fails, cost_value_on_error=case["cost"], post_run_summary=case["summary"], searcher=case["searcher"])
    if case["searcher"] == "bayesian_optimization":
        kw["initial_design_size"] = 50
    mode = case["mode"]
    if mode in ("total", "total_completed", "both"):
        kw["max_evaluations_total"] = case["total"]
    if mode in ("per_run", "both"):
        kw["max_evaluations_per_run"] = case["per_run"]
        kw.setdefault("max_evaluations_total", 1000)
    if mode == "total_completed":
        kw["continue_until_max_evaluation_completed"] = True
    s = Sched(str(root), max_steps=40000)
    try:
        bodies = [
            (lambda h, i=i: nepsrun.worker(
                h, str(root), seed=case["seed"] + i, pauses=case["pauses"],
                cost=case["cost"], fail=case["fail"][i], **kw
            ))
            for i in range(case["workers"])
        ]
        finished = drive(s, bodies, case)
        expect(finished, "the workers did not finish within the step bound")
    finally:
        s.close()

    n = case["workers"]
    for w in s.ws:
        expect(
            w.exit is not None and w.exit[0] == "ok",
            lambda w=w: f"worker {w.idx} did not end cleanly: {w.exit[:3]}\n{w.exit[3] if len(w.exit) > 3 else str()}",
        )
    starts: Counter = Counter()
    configs = {}
    results = {}
    for w in s.ws:
        for t in w.tells:
            if t[0] == "start":
                starts[t[1]] += 1
                configs[t[1]] = t[2]
            elif t[0] == "end":
                results[t[1]] = t[2]
            elif t[0] == "fail":
                results[t[1]] = "fail"
    expect(
        all(c == 1 for c in starts.values()),
        lambda: f"a configuration was evaluated more than once: {dict(starts)}",
    )
    with sut("reading the state after the run"):
        state = nepsrun.load_state(root)
        trials = state.get_all_trials()
        errs = state.get_errors().errs
        budget = state.optimizer_state().budget
    expect(set(starts) <= set(trials), "an evaluated configuration is not stored")
    for tid, t in trials.items():
        expect(t.id == tid, "stored under another id")
        if results.get(tid) == "fail":
            expect(
                t.state == t.State.CRASHED and t.report is not None,
                lambda t=t: f"{t.id} failed but is stored as {t.state}",
            )
        elif tid in results:
            expect(
                t.state == t.State.SUCCESS and t.report is not None,
                lambda t=t: f"result of {t.id} was returned but is stored as {t.state}",
            )
            expect(
                t.report.loss == results[tid],
                lambda t=t: f"{t.id}: stored loss {t.report.loss} != {results[t.id]}",
            )
            expect(
                dict(t.config) == configs[tid],
                lambda t=t: f"{t.id}: evaluated on {configs[t.id]}, stored {t.config}",
            )
        else:
            expect(
                t.report is None and t.state == t.State.PENDING,
                lambda t=t: f"{t.id} was never evaluated but is stored as {t.state}",
            )
    want_errs = Counter(tid for tid, r in results.items() if r == "fail")
    expect(
        Counter(e.trial_id for e in errs) == want_errs,
        lambda: f"error log {[e.trial_id for e in errs]}, failures {dict(want_errs)}",
    )
    if case["cost"] is not None:
        want = case["cost"] * len(results)
        expect(
            budget is not None and abs(budget.used_cost_budget - want) < 1e-9,
            lambda: f"accumulated cost {budget.used_cost_budget}, reported {want}",
        )
    done = len(results)
    N, M = case["total"], case["per_run"]
    per_worker = [sum(1 for t in w.tells if t[0] in ("end", "fail")) for w in s.ws]
    if mode == "per_run":
        expect(per_worker == [M] * n, f"evaluations per worker {per_worker}, asked {M}")
    else:
        lo = N if mode != "both" else min(N, M * n)
        expect(
            lo <= done <= N + n - 1,
            f"{done} evaluations done for a total of {N} with {n} workers",
        )
        if mode == "both":
            expect(max(per_worker) <= M, f"per worker {per_worker} > {M}")
    # a switch in the middle of the protocol is what the property is about
    switches = sum(1 for a, b in zip(s.trace, s.trace[1:]) if a[0] != b[0])
    ctx.nontrivial(switches >= 5 and len([p for p in per_worker if p]) >= 2)
    ctx.label(mode, f"workers={n}", f"leftover={len(trials) - done}")


FACETS = [
    Facet(
        "interleavings",
        cases,
        run_case,
        quick=240,
        thorough=4000,
        shards=12,
        quick_s=50,
        thorough_s=800,
        rule="at least two workers evaluated something and there were >=5 switches between"
        " workers in the middle of the protocol",
        cpu_limit=300,
    )
]
