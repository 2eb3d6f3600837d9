"""C11: every trial has its own directory, and a continued one finds what it continues."""

from __future__ import annotations

import os
from pathlib import Path

from hypothesis import strategies as st

from vlib import nepsrun, spaces
from vlib.core import Facet, Violation, expect, seed_everything, sut

ASSUMPTIONS = ["one worker at a time; checkpoints are saved with the functions neps offers"]

SEARCHERS = {
    "random_search": ("never", "maybe"), "successive_halving": ("never", "always"),
    "asha": ("never", "always"), "hyperband": ("never", "always"), "priorband": ("always", "always"),
}
SIGNATURES = ["both", "own", "previous", "none", "kwargs"]


@st.composite
def cases(draw):
    runs = []
    exps = []
    for _ in range(draw(st.integers(1, 2))):
        name = draw(st.sampled_from(sorted(SEARCHERS)))
        prior, fid = SEARCHERS[name]
        spec = draw(spaces.space_specs(max_size=2, min_size=1, fidelity=fid, prior=prior,
                                       names=["lr", "x", "epochs"]))
        f = spaces.fidelity_name(spec)
        if f is not None:
            kind, d = spec[f]
            spec = {**spec, f: (kind, {**d, "upper": d["lower"] * draw(st.sampled_from([3, 9]))})}
        kw = {"eta": draw(st.sampled_from([2, 3]))} if fid == "always" else {}
        exps.append({"searcher": name, "spec": spec, "kw": kw,
                     "root": draw(st.sampled_from(["a", "b/c", "with space", "a_b_1"]))})
    for _ in range(draw(st.integers(1, 4))):
        runs.append({"exp": draw(st.integers(0, len(exps) - 1)), "n": draw(st.integers(1, 9)),
                     "sig": draw(st.sampled_from(SIGNATURES)), "fail": draw(st.sampled_from([0, 0, 3]))})
    return {"exps": exps, "runs": runs, "seed": draw(st.integers(0, 10**6)),
            "name": draw(st.sampled_from([None, "ck", "model"])), "torch": draw(st.booleans()),
            "early": draw(st.booleans()),
            # how the root directory is given, and whether evaluations change the cwd
            "relative": draw(st.booleans()), "chdir": draw(st.sampled_from([False, False, True]))}


def decide(case, ctx):
    import neps
    import torch
    from neps.runtime import get_in_progress_trial
    from neps.utils.common import (
        get_initial_directory, load_checkpoint, load_lightning_checkpoint, save_checkpoint,
    )

    base = ctx.scratch()
    seed_everything(case["seed"])
    books = [{} for _ in case["exps"]]  # id -> what is known about the trial
    trials_of = [set() for _ in case["exps"]]
    continued = 0
    count = [0] * len(case["exps"])
    ck = {} if case["name"] is None else {"checkpoint_name": case["name"]}

    for run in case["runs"]:
        k = run["exp"]
        exp, book = case["exps"][k], books[k]
        root = base / str(k) / exp["root"]
        problems: list[str] = []

        def check(pipeline_directory, previous, config, known=True, k=k, book=book, root=root, run=run):
            nonlocal continued
            t = get_in_progress_trial()
            d = Path(t.metadata.location)
            tid = nepsrun.trial_id_of(d)
            expect(t.id == tid, f"trial {t.id} in {d}")
            if pipeline_directory is not None:
                expect(isinstance(pipeline_directory, Path), f"{pipeline_directory!r} is no path")
                expect(Path(pipeline_directory) == d, f"{tid}: {pipeline_directory} is not {d}")
            expect(d.is_dir(), f"{tid}: {d} does not exist")
            expect(d.resolve() == (root / "configs" / f"config_{tid}").resolve(), f"{tid} is in {d}")
            expect(tid not in book, f"{tid} is evaluated twice")
            expect(dict(t.config) == config, f"{tid}: called with {config}, trial has {dict(t.config)}")
            expect(sorted(config) == sorted(case["exps"][k]["spec"]), f"{tid}: called with {sorted(config)}")
            prev_id, prev_loc = t.metadata.previous_trial_id, t.metadata.previous_trial_location
            expect((prev_id is None) == (prev_loc is None), f"{tid}: {prev_id} in {prev_loc}")
            if known:
                expect((previous is None) == (prev_loc is None), f"{tid}: previous is {previous}, {prev_loc}")
            if prev_id is not None:
                expect(prev_id in book, f"{tid} continues {prev_id}, which was not evaluated")
                p = book[prev_id]
                expect(Path(prev_loc).resolve() == p["dir"], f"{tid} continues {prev_loc}, not {p['dir']}")
                if known:
                    expect(Path(previous).resolve() == p["dir"], f"{tid}: previous is {previous}")
                f = spaces.fidelity_name(case["exps"][k]["spec"])
                a = {n: v for n, v in config.items() if n != f}
                b = {n: v for n, v in p["config"].items() if n != f}
                expect(a == b, f"{tid} continues {prev_id} with other values: {a}, {b}")
                expect(config[f] > p["config"][f], f"{tid} continues {prev_id} without more fidelity")
                expect(p["dir"].joinpath("mine.txt").read_text() == f"{k}:{prev_id}",
                       f"the files of {prev_id} are gone")
                first = p["first"]
                continued += 1
            else:
                first = d.resolve()
            got = get_initial_directory()
            expect(Path(got).resolve() == first, f"{tid}: initial directory {got}, expected {first}")
            got = get_initial_directory(d)
            expect(Path(got).resolve() == first, f"{tid}: initial directory {got}, expected {first}")

            model = torch.nn.Linear(2, 1) if case["torch"] else None
            opt = torch.optim.SGD(model.parameters(), lr=0.5) if case["torch"] else None
            if case["early"]:  # an own checkpoint is not what is continued
                save_checkpoint(values_to_save={"who": "early"}, **ck)
            loaded = load_checkpoint(**ck, model=model, optimizer=opt)
            want = None if prev_id is None else book[prev_id]["saved"]
            if want is None and prev_id is not None and case["early"]:
                want = {"who": "early"}  # it failed before it saved more
            if want is None:
                expect(loaded is None, f"{tid}: loads {loaded} although nothing was saved")
            else:
                expect(loaded is not None and loaded["who"] == want["who"],
                       f"{tid}: loads {loaded}, expected {want['who']}")
                if case["torch"] and want["who"] != "early":
                    expect(torch.equal(model.weight, want["w"]) and opt.param_groups[0]["lr"] == want["lr"],
                           f"{tid}: model or optimizer of {prev_id} are not restored")
                here = load_checkpoint(book[prev_id]["dir"], **ck)
                expect(here["who"] == want["who"], f"{tid}: loads {here} from the directory")
            lit = load_lightning_checkpoint(first) if (first / "last.ckpt").exists() and prev_id is not None else None
            if lit is not None:
                expect(lit[1]["n"] == first.name, f"{tid}: lightning checkpoint {lit}")
            if prev_id is None:
                expect(load_lightning_checkpoint(d) == (None, None), f"{tid}: lightning checkpoint of nobody")

            (d / "mine.txt").write_text(f"{k}:{tid}")
            entry = {"dir": d.resolve(), "config": dict(config), "first": first, "saved": None}
            book[tid] = entry
            count[k] += 1
            if run["fail"] and count[k] % run["fail"] == 0:
                raise RuntimeError("planned")
            saved = {"who": f"{k}:{tid}"}
            if case["torch"]:
                with torch.no_grad():
                    model.weight.fill_(float(count[k]))
                for g in opt.param_groups:
                    g["lr"] = count[k] / 7
            save_checkpoint(values_to_save=dict(saved), model=model, optimizer=opt, **ck)
            if prev_id is None:
                torch.save({"n": d.resolve().name}, d / "last.ckpt")
            if case["torch"]:
                saved["w"] = model.weight.detach().clone()
                saved["lr"] = count[k] / 7
            entry["saved"] = saved
            return nepsrun.loss_of(config)

        def guarded(*a, **kw):
            try:
                if case["chdir"]:
                    os.chdir(get_in_progress_trial().metadata.location)
                return check(*a, **kw)
            except Violation as v:
                problems.append(str(v))
                return 0.0

        if run["sig"] == "both":
            def fn(pipeline_directory, previous_pipeline_directory, **config):
                return guarded(pipeline_directory, previous_pipeline_directory, config)
        elif run["sig"] == "own":
            def fn(pipeline_directory, **config):
                return guarded(pipeline_directory, None, config, known=False)
        elif run["sig"] == "previous":
            def fn(previous_pipeline_directory, **config):
                return guarded(None, previous_pipeline_directory, config)
        elif run["sig"] == "none":
            def fn(**config):
                return guarded(None, None, config, known=False)
        else:
            def fn(*, pipeline_directory=None, previous_pipeline_directory=None, **kwargs):
                return guarded(pipeline_directory, previous_pipeline_directory, kwargs)

        before = len(book)
        cwd = os.getcwd()
        try:
            os.chdir(base)
            given = os.path.relpath(root, base) if case["relative"] else root
            with sut("neps.run"):
                neps.run(run_pipeline=fn, pipeline_space=spaces.build_params(exp["spec"]),
                         root_directory=given, searcher=exp["searcher"],
                         max_evaluations_total=before + run["n"], ignore_errors=True,
                         loss_value_on_error=1e6, cost_value_on_error=1.0,
                         post_run_summary=case["chdir"], **exp["kw"])
        finally:
            os.chdir(cwd)
        if case["chdir"]:
            expect((root / "summary_csv" / "config_data.csv").exists(), "no summary in the run directory")
        if problems:
            raise Violation(problems[0])
        expect(len(book) == before + run["n"], f"{len(book)} evaluations, expected {before + run['n']}")
        try:
            got = get_in_progress_trial()
        except RuntimeError:
            pass
        else:
            raise Violation(f"a trial is in progress after the run: {got}")
    for k, book in enumerate(books):
        root = base / str(k) / case["exps"][k]["root"]
        if not book:
            expect(not root.exists(), f"{root} exists without a run")
            continue
        dirs = {p.name for p in (root / "configs").iterdir() if p.is_dir()}
        expect(dirs == {f"config_{t}" for t in book}, f"directories {dirs} for the trials {sorted(book)}")
        for t, e in book.items():
            expect(e["dir"].joinpath("mine.txt").read_text() == f"{k}:{t}", f"the files of {t} are gone")
    ctx.nontrivial(continued >= 1)
    ctx.label("relative" if case["relative"] else "absolute", "chdir" if case["chdir"] else "stay")
    ctx.label(*{case["exps"][r["exp"]]["searcher"] for r in case["runs"]}, *{r["sig"] for r in case["runs"]})


FACETS = [Facet("lineage", cases, decide, 160, 4000, 6, rule="at least one continued trial")]
