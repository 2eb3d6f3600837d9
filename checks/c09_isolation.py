"""C09: a run touches its own directory only, and continues only what it can continue."""

from __future__ import annotations

import hashlib
import shutil
from pathlib import Path

from hypothesis import strategies as st

from vlib import nepsrun
from vlib.core import Facet, Violation, expect, seed_everything, sut

ASSUMPTIONS = ["searchers without a model; the options of a searcher are plain values"]

# searcher, keyword arguments, key: runs with the same key may continue each other
GRID = [
    ("random_search", {}, "rs"),
    ("random_search", {"use_priors": True}, "rs-p"),
    ("random_search", {"use_priors": False}, "rs"),
    ("random_search", {"use_priors": False, "ignore_fidelity": True}, "rs"),
    ("random_search", {"ignore_fidelity": False}, "rs-f"),
    ({"strategy": "random_search", "use_priors": True}, {}, "dict-p"),
    ({"strategy": "random_search", "use_priors": True, "name": "mine"}, {}, "dict-mine"),
    ({"strategy": "random_search"}, {"use_priors": True}, "dict-p"),
    ("asha", {}, "asha"),
    ("asha", {"eta": 2}, "asha-2"),
    ("asha", {"eta": 3}, "asha"),
    ("hyperband", {}, "hb"),
    ("hyperband", {"initial_design_type": "max_budget"}, "hb"),
    ("hyperband", {"initial_design_type": "unique_configs"}, "hb-u"),
    ("default", {}, "default"),
    ("default", {"eta": 7}, "default"),
    ("instance", {}, "instance"),
    ("yaml", {}, "yaml"),
    ("yaml", {"use_priors": False}, "yaml-n"),
]


def space():
    from neps.search_spaces import FloatParameter, IntegerParameter

    return {"x": FloatParameter(0.0, 1.0, default=0.3), "b": IntegerParameter(1, 9, default=4),
            "e": IntegerParameter(1, 9, is_fidelity=True)}


@st.composite
def cases(draw):
    ids = st.sampled_from([None, None, "1", 2, "x y"])
    ops = draw(st.lists(st.fixed_dictionaries({
        "root": st.sampled_from(["r", "r", "q/s", "r/task_1"]), "task": ids, "dev": ids,
        "searcher": st.integers(0, len(GRID) - 1), "n": st.integers(0, 3),
        "overwrite": st.sampled_from([False, False, False, True]), "str": st.booleans(),
        "junk": st.sampled_from([False, False, True]),
    }), min_size=2, max_size=7))
    # concentrate: some operations repeat an earlier place and searcher
    for i in range(1, len(ops)):
        if draw(st.booleans()):
            j = draw(st.integers(0, i - 1))
            for k in ("root", "task", "dev"):
                ops[i][k] = ops[j][k]
            if draw(st.booleans()):
                ops[i]["searcher"] = ops[j]["searcher"]
    return {"ops": ops, "seed": draw(st.integers(0, 10**6))}


def files(base: Path) -> dict:
    return {p.relative_to(base).as_posix(): hashlib.sha1(p.read_bytes()).hexdigest()
            for p in base.rglob("*") if p.is_file()}


def under(name: str, d: str) -> bool:
    return name == d or name.startswith(d + "/")


def decide(case, ctx):
    import neps
    from neps.exceptions import NePSError
    from neps.optimizers.random_search.optimizer import RandomSearch
    from neps.search_spaces import SearchSpace

    base = ctx.scratch()
    yaml = base / "conf" / "own.yaml"
    yaml.parent.mkdir()
    yaml.write_text("strategy: random_search\nuse_priors: true\nignore_fidelity: true\n")
    seed_everything(case["seed"])
    runs: dict[str, dict] = {}  # directory -> key and evaluated ids
    refused = resumed = 0
    for n_op, op in enumerate(case["ops"]):
        searcher, kw, key = GRID[op["searcher"]]
        d = op["root"]
        if op["task"] is not None:
            d += f"/task_{op['task']}"
        if op["dev"] is not None:
            d += f"/dev_{op['dev']}"
        root = base / op["root"]
        if op["junk"]:
            (base / d).mkdir(parents=True, exist_ok=True)
            (base / d / f"notes{n_op}.txt").write_text("keep me")
        before = files(base)
        if op["overwrite"]:
            for other in [o for o in runs if under(o, d)]:
                del runs[other]
        have = runs.get(d)
        match = have is None or have["key"] == key
        want = (0 if have is None else len(have["ids"])) + op["n"]
        calls = []

        def fn(pipeline_directory, **config):
            p = Path(pipeline_directory)
            calls.append(p)
            return nepsrun.loss_of(config)

        if searcher == "instance":
            s = RandomSearch(pipeline_space=SearchSpace(**space()))
        elif searcher == "yaml":
            s = str(yaml)[: -len(".yaml")] if op["str"] else yaml
        else:
            s = dict(searcher) if isinstance(searcher, dict) else searcher
        given = repr(s)
        what = f"operation {n_op} in {d} with {GRID[op['searcher']]}"
        try:
            neps.run(
                run_pipeline=fn, pipeline_space=space(), root_directory=str(root) if op["str"] else root,
                task_id=op["task"], development_stage_id=op["dev"], searcher=s,
                overwrite_working_directory=op["overwrite"], max_evaluations_total=max(want, 1),
                max_evaluations_per_run=op["n"], post_run_summary=False, **kw)
        except NePSError as e:
            expect(not match, f"{what}: refused although the searcher is the same: {e}")
            expect(not calls, f"{what}: evaluated before it was refused")
            expect(files(base) == before, f"{what}: was refused but changed files")
            refused += 1
            continue
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{what}: fails with {type(e).__name__}: {e}") from e
        if searcher != "instance":
            expect(repr(s) == given, f"{what}: changed the searcher it was given to {s!r}")
        expect(match, f"{what}: continues a run of another searcher ({have})")
        after = files(base)
        for f, h in before.items():
            if under(f, d):
                if op["overwrite"]:
                    expect(f not in after or after[f] != h or not f.endswith(".txt") or "notes" not in f,
                           f"{what}: kept {f} although the directory is to be overwritten")
                elif f.endswith((".txt", ".yaml")) and "notes" in f:
                    expect(after.get(f) == h, f"{what}: changed the user's file {f}")
                elif "/configs/config_" in f and not under_other(f, d, runs):
                    expect(after.get(f) == h, f"{what}: changed {f} of a finished trial")
            else:
                expect(after.get(f) == h, f"{what}: changed {f} outside of {d}")
        for f in after:
            expect(f in before or under(f, d), f"{what}: created {f} outside of {d}")
        for o in runs:
            if o != d and under(o, d):
                for f, h in before.items():
                    if under(f, o):
                        expect(after.get(f) == h, f"{what}: changed {f} of the run in {o}")
        e = runs.setdefault(d, {"key": key, "ids": set()})
        resumed += bool(e["ids"]) and bool(calls)
        expect(len(calls) == op["n"], f"{what}: {len(calls)} evaluations, expected {op['n']}")
        for p in calls:
            expect(p.parent.resolve() == (base / d / "configs").resolve(), f"{what}: evaluated in {p}")
            expect(p.name not in e["ids"], f"{what}: evaluated {p.name} again")
            e["ids"].add(p.name)
        with sut("reading the trials"):
            got = {f"config_{t}" for t in nepsrun.read_trials(base / d)}
        expect(got == e["ids"], f"{what}: trials {sorted(got)}, expected {sorted(e['ids'])}")
    for d, e in runs.items():
        with sut("reading the trials"):
            got = {f"config_{t}" for t in nepsrun.read_trials(base / d)}
        expect(got == e["ids"], f"finally in {d}: trials {sorted(got)}, expected {sorted(e['ids'])}")
    ctx.nontrivial(len(runs) >= 2 or refused or resumed)
    ctx.label(*(["refused"] if refused else []), *(["resumed"] if resumed else []), f"dirs={len(runs)}")
    shutil.rmtree(base / "r", ignore_errors=True)


def under_other(f: str, d: str, runs) -> bool:
    return any(o != d and under(o, d) and under(f, o) for o in runs)


FACETS = [Facet("isolation", cases, decide, 200, 6000, 6, rule="two directories, a refusal or a continuation")]
