"""C04: killing workers at any point never damages the run."""

from __future__ import annotations

from collections import Counter

from hypothesis import strategies as st

from vlib import nepsrun
from vlib.core import Facet, expect, sut
from vlib.sched import Sched

JOBS = 12
LEVEL = "fault_enumeration"
ASSUMPTIONS = [
    "a kill stops a process between two file-system operations, or in the middle of writing a"
    " file after it was truncated; the kernel keeps what was written (process crash, not power"
    " loss)",
]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 3))
    # Each round runs a few workers; some of them are killed at some point of the protocol.
    rounds = draw(
        st.lists(
            st.fixed_dictionaries(
                {
                    "workers": st.integers(1, 2),
                    # where worker 0 is killed: which kind of operation and which occurrence
                    "kill": st.one_of(
                        st.tuples(st.just("any"), st.integers(0, 500)),
                        st.tuples(
                            st.sampled_from(["writing", "rename", "configs", "state", "open-w"]),
                            st.integers(0, 120),
                        ),
                        st.tuples(
                            st.sampled_from(
                                ["evaluating", "summary", "metadata", "report", "version",
                                 "config.yaml", "mkdir", ".optimizer_info", ".errors"]
                            ),
                            st.integers(0, 12),
                        ),
                    ),
                    "sched": st.lists(st.integers(1, 60), max_size=12),
                }
            ),
            min_size=1,
            max_size=n,
        )
    )
    return {
        "rounds": rounds,
        "total": draw(st.integers(1, 5)),
        "summary": draw(st.booleans()),
        "final_workers": draw(st.integers(1, 2)),
        "searcher": draw(
            st.sampled_from(["random_search", "random_search", "bayesian_optimization"])
        ),
        "cost": draw(st.sampled_from([None, 1.0])),
        "errors": draw(st.booleans()),
        "seed": draw(st.integers(0, 999)),
    }


def matches(kind: str, at: str) -> bool:
    return kind == "any" or kind in at


def _tells(s: Sched):
    return [(w, t) for w in s.ws for t in w.tells]


def run_case(case, ctx):
    root = ctx.scratch() / "root"
    kw = dict(
        searcher=case["searcher"],
        post_run_summary=case["summary"],
        max_evaluations_total=case["total"],
        continue_until_max_evaluation_completed=True,
        ignore_errors=case["errors"],
    )
    if case["searcher"] == "bayesian_optimization":
        kw["initial_design_size"] = 50
    fail = {2} if case["errors"] else ()

    s = Sched(str(root), max_steps=60000)
    killed_at = []
    kept: dict = {}  # trial id -> (state, loss, config) seen on disk after a round
    try:

        def body(seed):
            return lambda h: nepsrun.worker(
                h, str(root), seed=seed, cost=case["cost"], fail=fail, **kw
            )

        for r, rnd in enumerate(case["rounds"]):
            ws = [s.spawn(body(case["seed"] + 10 * r + i)) for i in range(rnd["workers"])]
            kind, nth = rnd["kill"]
            victim = ws[0]
            plan = list(rnd["sched"])
            while not victim.done:
                if len(ws) > 1 and plan and not ws[1].done:
                    s.burst(ws[1], plan.pop(0))
                for _ in range(25):
                    if victim.done:
                        break
                    if matches(kind, victim.at or ""):
                        if nth == 0:
                            killed_at.append(s.kill(victim))
                            break
                        nth -= 1
                    before = victim.at
                    s.step(victim)
                    if before == victim.at and (before or "").startswith("flock"):
                        plan = plan or [40]
                        break
                expect(s.total < s.max_steps, "no progress within the step bound")
            for w in ws[1:]:
                while not w.done:
                    s.burst(w, 200)
                    expect(s.total < s.max_steps, "no progress within the step bound")
                expect(
                    w.exit[0] == "ok",
                    lambda w=w: f"a surviving worker was taken down after a kill at"
                    f" {killed_at}: {w.exit[2]}\n{w.exit[3] if len(w.exit) > 3 else ''}",
                )
            check_disk(root, s, kept, killed_at)

        # the restarted run
        before_final = len(s.ws)
        final = [s.spawn(body(case["seed"] + 1000 + i)) for i in range(case["final_workers"])]
        expect(s.run_all(), "the restarted run does not finish")
        for w in final:
            expect(
                w.exit[0] == "ok",
                lambda w=w: f"the restarted run failed after a kill at {killed_at}:"
                f" {w.exit[2]}\n{w.exit[3] if len(w.exit) > 3 else ''}",
            )
        trials = check_disk(root, s, kept, killed_at)
        done = [t for t in trials.values() if t.report is not None]
        expect(
            len(done) >= case["total"],
            f"{len(done)} of {case['total']} evaluations stored after the restart"
            f" (killed at {killed_at})",
        )
        # no overshoot beyond what workers running at the same time can cause
        in_final = sum(
            1 for w in s.ws[before_final:] for t in w.tells if t[0] == "start"
        )
        expect(
            in_final == 0 or in_final <= case["total"] + case["final_workers"] - 1,
            "the restarted run evaluated more than asked for",
        )
        starts = Counter(t[1] for _, t in _tells(s) if t[0] == "start")
        expect(
            all(c == 1 for c in starts.values()),
            lambda: f"evaluated more than once: {dict(starts)} (killed at {killed_at})",
        )
        with sut("status of the recovered run"):
            from neps.status.status import get_summary_dict

            summary = get_summary_dict(root, add_details=True)
        expect(
            summary["num_evaluated_configs"] == len(done),
            lambda: f"status says {summary['num_evaluated_configs']} evaluated, {len(done)} are",
        )
    finally:
        s.close()
    ctx.nontrivial(bool(killed_at))
    for k in killed_at:
        ctx.label("killed at " + k.split(" ")[0])


def check_disk(root, s, kept, killed_at):
    """What a reader sees now, given everything that happened so far."""
    if not (root / "configs").exists():
        return {}
    with sut(f"reading the trials after a kill at {killed_at}"):
        from pathlib import Path

        from neps.state.filebased import TrialRepoInDirectory

        repo = TrialRepoInDirectory(Path(root) / "configs")
        trials = {k: v.synced() for k, v in repo.all().items()}
    configs = {t[1]: t[2] for _, t in _tells(s) if t[0] == "start"}
    losses = {t[1]: t[2] for _, t in _tells(s) if t[0] == "end"}
    fails = {t[1] for _, t in _tells(s) if t[0] == "fail"}
    # an evaluation followed by a further evaluation of the same worker was reported
    for w in s.ws:
        ev = [t for t in w.tells if t[0] in ("start", "end", "fail")]
        finished = {t[1] for t in ev if t[0] in ("end", "fail")}
        last = ev[-1][1] if ev else None
        for tid in finished:
            if tid != last or (w.exit is not None and w.exit[0] == "ok"):
                t = trials.get(tid)
                expect(
                    t is not None and t.report is not None,
                    f"the result of {tid} is lost (killed at {killed_at})",
                )
    for tid, c in configs.items():
        expect(tid in trials, f"evaluated trial {tid} disappeared (killed at {killed_at})")
        expect(
            dict(trials[tid].config) == c,
            f"configuration of {tid} changed: {c} -> {trials[tid].config} ({killed_at})",
        )
    for tid, t in trials.items():
        if t.report is not None:
            expect(tid in losses or tid in fails, f"{tid} has a result nobody returned")
            if tid in losses:
                expect(
                    t.report.loss == losses[tid] and t.report.reported_as == "success",
                    f"result of {tid} changed: {losses[tid]} -> {t.report} ({killed_at})",
                )
            else:
                expect(
                    t.report.reported_as == "crashed", f"{tid} crashed, stored {t.report}"
                )
        elif t.state not in (t.State.PENDING, t.State.EVALUATING):
            expect(False, f"{tid} is {t.state} without a result (killed at {killed_at})")
        if t.state == t.State.PENDING:
            expect(tid not in configs, f"{tid} was started but is pending ({killed_at})")
        if tid in kept:
            loss, cfg, rep = kept[tid]
            expect(
                (t.report.loss if t.report else None, dict(t.config)) == (loss, cfg)
                and (t.report is not None),
                f"a stored result of {tid} changed or vanished ({killed_at})",
            )
        if t.report is not None:
            kept[tid] = (t.report.loss, dict(t.config), True)
    expect(set(kept) <= set(trials), f"a stored result vanished ({killed_at})")
    return trials


FACETS = [
    Facet(
        "kills",
        cases,
        run_case,
        quick=240,
        thorough=5000,
        shards=12,
        quick_s=60,
        thorough_s=800,
        rule="at least one worker was really killed before it had finished",
        cpu_limit=300,
    )
]
