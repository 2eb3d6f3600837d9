"""C27: what evaluations log for TensorBoard is found, exactly, with their configuration."""

from __future__ import annotations

import io
import math
import shutil

import numpy as np
from hypothesis import strategies as st

from vlib import nepsrun, spaces, workers
from vlib.core import Facet, expect, seed_everything, sut

ASSUMPTIONS = [
    "the files are read with tensorboard's own loader; values are stored in single precision",
    "one worker at a time; the first evaluation of a continued configuration has logged something",
]

NAMES = ["train", "val/err", "acc", "lr rate"]
values = st.one_of(st.integers(-40, 40).map(lambda i: i / 8), st.sampled_from([1e-9, 123456.75, 0.1, math.inf]))


@st.composite
def logs(draw):
    n = draw(st.integers(1, 7))
    image = None
    if draw(st.integers(0, 3)) == 0:
        image = {
            "n": n, "counter": draw(st.sampled_from([1, 1, 2, 3])),
            "random": draw(st.booleans()), "num": draw(st.integers(1, 8)),
            "seed": draw(st.integers(0, 5)), "size": draw(st.sampled_from([None, 4, 8])),
            "state": draw(st.booleans()),
        }
    return {
        "loss": draw(values), "epoch": draw(st.integers(0, 30)),
        "scalar": draw(st.sampled_from([True, True, False])),
        "hparam": draw(st.sampled_from([True, False])),
        "incumbent": draw(st.booleans()),
        "extra": draw(st.dictionaries(st.sampled_from(NAMES), values, max_size=2)),
        "image": image,
    }


@st.composite
def cases(draw):
    runs, fid = [], draw(st.booleans())
    for i in range(draw(st.integers(1, 4))):
        runs.append({
            "root": draw(st.integers(0, 1)), "n": draw(st.integers(1, 8 if fid else 4)),
            "enabled": draw(st.sampled_from([True, True, True, False])),
            "delete": draw(st.integers(0, 5)) == 0,
        })
    return {
        "spec": draw(spaces.space_specs(max_size=3, fidelity="always" if fid else "never")),
        "runs": runs, "seed": draw(st.integers(0, 10**6)),
        "plans": draw(st.lists(st.lists(logs(), max_size=3), min_size=1, max_size=8)),
        # what the n-th evaluation does in the end
        "ends": draw(st.lists(st.sampled_from(["return"] * 6 + ["raise", "interrupt"]), min_size=1, max_size=9)),
        "searcher": draw(st.sampled_from(["asha", "successive_halving"])) if fid else "random_search",
    }


def shade(i, n):
    return (i + 1) / (n + 1)


def images(n, size):
    """n distinguishable images."""
    import torch

    s = size or 32
    return torch.stack([torch.full((3, s, s), shade(i, n)) for i in range(n)])


def in_time(events):
    # the files of one second are read in the order of their names
    return sorted(events, key=lambda e: e.wall_time)


def read(folder):
    """Everything logged below a directory: scalars, hyperparameters and images in order."""
    from tensorboard.backend.event_processing.event_accumulator import EventAccumulator
    from tensorboard.plugins.hparams import plugin_data_pb2

    acc = EventAccumulator(str(folder), purge_orphaned_data=False, size_guidance={
        "scalars": 0, "images": 0, "tensors": 0, "histograms": 0})
    acc.Reload()
    tags = acc.Tags()
    scalars = {t: [(e.step, e.value) for e in in_time(acc.Scalars(t))] for t in tags["scalars"]}
    for t in tags["tensors"]:
        if t not in scalars:
            ev = in_time(acc.Tensors(t))
            scalars[t] = [(e.step, float(np.array(e.tensor_proto.float_val or [0])[0])) for e in ev]
    pictures = {t: [(e.step, e.encoded_image_string) for e in in_time(acc.Images(t))] for t in tags["images"]}
    hparams = []
    if "_hparams_/session_start_info" in acc.summary_metadata:
        content = acc.summary_metadata["_hparams_/session_start_info"].plugin_data.content
        data = plugin_data_pb2.HParamsPluginData.FromString(content)
        hparams = {k: getattr(v, v.WhichOneof("kind")) for k, v in data.session_start_info.hparams.items()}
    return scalars, hparams, pictures


def close(a, b):
    with np.errstate(over="ignore"):
        b = float(np.float32(b))
    return a == b or math.isnan(a) and math.isnan(b)


def check_image(png, im, what):
    from PIL import Image

    a = np.asarray(Image.open(io.BytesIO(png)).convert("RGB")).astype(float)[:, :, 0]
    s = im["size"] or 32
    m = min(im["num"], im["n"])
    cols = a.shape[1] // (s + 2)
    rows = a.shape[0] // (s + 2)
    expect(a.shape == (rows * (s + 2) + 2, cols * (s + 2) + 2) and cols * rows >= m > cols * (rows - 1),
           f"{what}: {m} images of {s} pixels are shown in {a.shape}")
    got = []
    for k in range(cols * rows):
        y, x = divmod(k, cols)
        cell = a[y * (s + 2) + 2: y * (s + 2) + 2 + s, x * (s + 2) + 2: x * (s + 2) + 2 + s]
        expect(cell.min() == cell.max(), f"{what}: cell {k} mixes images")
        got.append(cell.max() / 255)
    shades = [shade(i, im["n"]) for i in range(im["n"])]
    pick = [min(range(im["n"]), key=lambda i: abs(shades[i] - g)) for g in got[:m]]
    expect(all(abs(shades[i] - g) < 0.005 for i, g in zip(pick, got)), f"{what}: shows {got}, not {shades}")
    expect(all(g == 0 for g in got[m:]), f"{what}: more than {m} images: {got}")
    expect(len(set(pick)) == m, f"{what}: shows an image twice: {pick}")
    if not im["random"]:
        expect(pick == list(range(m)), f"{what}: shows {pick}, not the first {m}")
    return tuple(pick)


def decide(case, ctx):
    import importlib

    import neps
    import neps.runtime
    from neps.utils.common import get_initial_directory

    # as in a new process
    getattr(neps.runtime, "_TRIAL_END_CALLBACKS", {}).clear()
    tblogger = importlib.reload(importlib.import_module("neps.plot.tensorboard_eval")).tblogger
    base = ctx.scratch()
    roots = [base / "one", base / "two"]
    want: dict = {r: {} for r in roots}  # root -> lineage directory name -> what was logged
    done: dict = {r: [] for r in roots}  # losses of the finished evaluations
    points: dict = {r: [] for r in roots}  # finished evaluations when a trajectory was asked for
    count = {"n": 0, "logged": 0, "tags": set()}
    at = {"root": None, "enabled": True}
    random_state = np.random.get_state()
    problems = []

    whole = case

    def pipeline(pipeline_directory, previous_pipeline_directory, **config):
        i = count["n"]
        count["n"] += 1
        root = at["root"]
        first = get_initial_directory(pipeline_directory).name
        seen = want[root].setdefault(first, {"scalars": {}, "images": {}, "hparams": None, "first": None})
        plan = case["plans"][i % len(case["plans"])]
        end = case["ends"][i % len(case["ends"])]
        if previous_pipeline_directory is not None and not (
                root / "configs" / first / "tbevents").exists():
            plan = []  # see the assumptions
        if case["searcher"] != "random_search" and previous_pipeline_directory is None and not plan:
            plan = [{"loss": 1.0, "epoch": 0, "scalar": True, "hparam": False, "incumbent": False,
                     "extra": {}, "image": None}]
        for e in plan:
            extra = {k: tblogger.scalar_logging(v) for k, v in e["extra"].items()}
            im = e["image"]
            if im:
                rng = np.random.RandomState(im["seed"]) if im["state"] else im["seed"]
                extra["pics"] = tblogger.image_logging(
                    images(im["n"], im["size"]), im["counter"],
                    resize_images=[im["size"]] * 2 if im["size"] else None,
                    random_images=im["random"], num_images=im["num"], seed=rng)
            before = np.random.get_state()[1].tolist()
            try:
                tblogger.log(
                    loss=e["loss"], current_epoch=e["epoch"], writer_config_scalar=e["scalar"],
                    writer_config_hparam=e["hparam"], write_summary_incumbent=e["incumbent"],
                    extra_data=extra if extra or i % 2 else None)
            except Exception as exc:
                problems.append(f"{type(exc).__name__}: {exc} while logging {e} in evaluation {i + 1}")
                raise
            if np.random.get_state()[1].tolist() != before:
                problems.append("logging changed the random numbers of the evaluation")
            if not at["enabled"]:
                continue
            count["logged"] += 1
            sc = seen["scalars"]
            if e["scalar"]:
                sc.setdefault(f"{first}/Loss", []).append((e["epoch"], e["loss"]))
            if e["hparam"]:
                sc.setdefault("Summary/Loss", []).append((e["epoch"], e["loss"]))
                if seen["hparams"] is None:
                    seen["hparams"] = dict(config)
            for k, v in e["extra"].items():
                sc.setdefault(f"{first}/{k}", []).append((e["epoch"], v))
            if im and e["epoch"] % im["counter"] == 0:
                seen["images"].setdefault(f"{first}/pics", []).append((e["epoch"], im))
        if end == "interrupt":
            raise workers.Interrupt
        if plan and at["enabled"] and plan[-1]["incumbent"]:
            points[root].append(len(done[root]))
        loss = nepsrun.loss_of({k: v for k, v in config.items()})
        if end == "raise":
            done[root].append(math.inf)
            raise RuntimeError("planned")
        done[root].append(loss)
        return loss

    params = spaces.build_params(case["spec"])
    used = set()
    for i, run in enumerate(case["runs"]):
        root = roots[run["root"]]
        at.update(root=root, enabled=run["enabled"])
        if run["delete"]:
            other = roots[1 - run["root"]]
            if other.exists():
                ctx.label("deleted a directory")
            shutil.rmtree(other, ignore_errors=True)
            want[other], done[other], points[other] = {}, [], []
        (tblogger.enable if run["enabled"] else tblogger.disable)()
        expect(tblogger.get_status() == run["enabled"], "get_status")
        seed_everything(case["seed"] + i)
        used.add(root)
        with sut(f"run {i + 1}"):
            try:
                neps.run(pipeline, root_directory=root, pipeline_space=dict(params),
                         searcher=case["searcher"], **({"eta": 2} if case["searcher"] != "random_search" else {}), max_evaluations_total=1000, max_evaluations_per_run=run["n"],
                         ignore_errors=True, post_run_summary=False)
            except workers.Interrupt:
                ctx.label("interrupted")
        expect(not problems, "; ".join(problems))
    # another evaluation that logs, so that what an interrupted one has logged is written
    tblogger.enable()
    at.update(root=base / "last", enabled=True)
    want[at["root"]], done[at["root"]], points[at["root"]] = {}, [], []
    case = {**case, "plans": [[{"loss": 0.0, "epoch": 0, "scalar": True, "hparam": False, "incumbent": False,
                                "extra": {}, "image": None}]], "ends": ["return"]}
    with sut("the last run"):
        neps.run(pipeline, root_directory=base / "last", pipeline_space=dict(params),
                 searcher="random_search", max_evaluations_total=1, post_run_summary=False)
    np.random.set_state(random_state)
    chosen: dict = {}
    for root in roots:
        where = {p.parent.name for p in root.rglob("tbevents")} if root.exists() else set()
        logged = {k for k, v in want[root].items() if v["scalars"] or v["images"]}
        expect(logged <= where, f"nothing was written for {logged - where} in {root.name}")
        for d in where:
            scalars, hparams, pictures = read(root / "configs" / d / "tbevents")
            w = want[root].get(d, {"scalars": {}, "images": {}, "hparams": None})
            expect(set(scalars) - {"_hparams_/session_start_info", "_hparams_/session_end_info",
                                   "_hparams_/experiment"} == set(w["scalars"]),
                   f"{d} has the curves {sorted(scalars)}, logged were {sorted(w['scalars'])}")
            for tag, ev in w["scalars"].items():
                got = scalars[tag]
                expect(len(got) == len(ev) and all(
                    a[0] == b[0] and close(a[1], b[1]) for a, b in zip(got, ev)),
                    f"{d}: {tag} is {got}, logged was {ev}")
            if w["hparams"] is not None:
                expect(set(hparams) == set(w["hparams"]) and all(
                    hparams[k] == v for k, v in w["hparams"].items()
                    if k != spaces.fidelity_name(case["spec"])),
                    f"{d}: hyperparameters {hparams}, evaluated was {w['hparams']}")
            else:
                expect(not hparams, f"{d}: hyperparameters {hparams} were not logged")
            expect(set(pictures) == set(w["images"]),
                   f"{d} has images {sorted(pictures)}, logged were {sorted(w['images'])}")
            for tag, ev in w["images"].items():
                got = pictures[tag]
                expect([s for s, _ in got] == [s for s, _ in ev],
                       f"{d}: images at {[s for s, _ in got]}, logged at {[s for s, _ in ev]}")
                for (step, png), (_, im) in zip(got, ev):
                    pick = check_image(png, im, f"{d}/{tag} at {step}")
                    if im["random"]:
                        key = (im["n"], im["num"], im["seed"])
                        expect(chosen.setdefault(key, pick) == pick,
                               f"the seed {im['seed']} chooses {pick} and {chosen[key]}")
                    ctx.label("image")
        folder = root / "summary"
        got = []
        if folder.exists():
            got = read(folder)[0].get("Summary/Incumbent_graph", [])
        # the trajectory: (number of finished evaluations, best loss of these)
        for step, v in got:
            best = min(done[root][:int(step)], default=math.inf)
            expect(step <= len(done[root]) and close(v, best),
                   f"the trajectory of {root.name} has {v} after {step} evaluations, the best"
                   f" of {done[root][:int(step)]} is {best}")
        steps = [s for s, _ in got]
        for n in points[root]:
            expect(n in steps or n + 1 in steps,
                   f"the trajectory of {root.name} has points {steps}, one was asked for in evaluation {n + 1}")
        expect(len(steps) <= len(done[root]),
               f"{len(steps)} points {steps} in the trajectory of {len(done[root])} evaluations")
    if len(whole["runs"]) > 1:
        ctx.label("several runs")
    if count["logged"] >= 2:
        ctx.nontrivial(repr(whole))


FACETS = [
    Facet("events", cases, decide, quick=160, thorough=3000, shards=4,
          rule="at least two logs were written"),
]
