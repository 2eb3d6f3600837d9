"""C26: the command line does and shows what the same calls and files in Python do."""

from __future__ import annotations

import contextlib
import hashlib
import io
import json
import math
import os
import sys
from datetime import datetime
from pathlib import Path

from hypothesis import strategies as st

from checks import c10_status as c10
from checks import c22_runargs as c22
from vlib import nepsrun, spaces, workers
from vlib.core import Facet, expect, seed_everything, sut

ASSUMPTIONS = [
    "the commands are called in the process of the check, with the arguments that a shell would pass",
    "the text of the commands is read leniently: by labels and columns, not by spacing",
]


def cli(*argv, cwd):
    """Run `neps argv...` in cwd; what it prints."""
    from neps.utils import cli as module

    out, old_argv, old_cwd = io.StringIO(), sys.argv, os.getcwd()
    sys.argv = ["neps", *map(str, argv)]
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            module.main()
    finally:
        sys.argv = old_argv
        os.chdir(old_cwd)
    return out.getvalue()


def hashes(root):
    return {
        str(p.relative_to(root)): hashlib.sha256(p.read_bytes()).hexdigest()
        for p in sorted(Path(root).rglob("*")) if p.is_file() and "lock" not in p.name}


# --------------------------------------------------------------------------- inspecting
COMMANDS = ["info", "info", "info", "errors", "status", "status --pending",
            "status --evaluating", "status --succeeded", "results", "results", "results --plot"]
TEXTS = ["boom", "two\nlines", "{x} %s", "ünïcode", ""]


@st.composite
def inspect_cases(draw):
    case = draw(c10.cases())
    case["entries"] = draw(st.lists(c10.entries(), min_size=draw(st.sampled_from([0, 2, 5])), max_size=11))
    for e in case["entries"]:
        e["err"] = draw(st.sampled_from(TEXTS))
        e["tb"] = draw(st.sampled_from([None, "Traceback (most recent call last):\n  File x"]))
    case["commands"] = draw(st.lists(st.sampled_from(COMMANDS), min_size=1, max_size=4))
    case["which"] = draw(st.integers(0, 10))
    case["from_config"] = draw(st.booleans())
    case["absent"] = draw(st.integers(0, 9)) == 0
    return case


def fill(case, root):
    """Like c10.fill, with the errors of the case; also the trials as they were written."""
    from neps.optimizers.random_search.optimizer import RandomSearch
    from neps.search_spaces import CategoricalParameter, ConstantParameter, SearchSpace

    seed_everything(case["seed"])
    params = nepsrun.simple_space()
    if case["odd"]:
        params["q,x"] = CategoricalParameter(['a,"b', "two words", "", "None"])
        params["const"] = ConstantParameter(3)
    opt = RandomSearch(pipeline_space=SearchSpace(**params))
    state = workers.new_state(root, {
        "searcher_name": "my searcher", "searcher_alg": "random_search",
        "searcher_selection": "neps-default", "neps_decision_tree": False,
        "searcher_args": {"use_priors": False}})
    model = []
    for n, e in enumerate(case["entries"]):
        t = state.sample_trial(optimizer=opt, worker_id=f"sampler-{n}")
        m = {"id": t.id, "config": dict(t.config), "trial": t, "report": None, **e}
        if e["state"] != "pending":
            t.set_evaluating(time_started=500.0 + 7 * n, worker_id=f"worker-{n}")
            state.put_updated_trial(t)
        if e["state"] in ("success", "crashed"):
            crashed = e["state"] == "crashed"
            m["report"] = t.set_complete(
                report_as=e["state"], time_end=1000.0 + n, loss=e["loss"], cost=e["cost"],
                learning_curve=e["curve"], err=ValueError(e["err"]) if crashed else None,
                tb=e["tb"] if crashed else None, extra=dict(e["extra"]), evaluation_duration=3723.25 + n)
            state.report_trial_evaluation(t, m["report"], worker_id=f"worker-{n}")
        model.append(m)
    return model


def when(t):
    return datetime.fromtimestamp(t).strftime("%Y-%m-%d %H:%M:%S")


def field(out, label, text=None):
    rows = [ln.strip() for ln in out.splitlines() if ln.strip().startswith(label + ":")]
    expect(len(rows) == 1, f"{len(rows)} lines {label!r} in\n{out}")
    return rows[0][len(label) + 1:].strip()


def number(s, want, what):
    try:
        got = None if s in ("None", "N/A") else float(s)
    except ValueError:
        got = s
    if want is None:
        ok = got is None
    else:
        ok = isinstance(got, float) and (
            math.isnan(got) and math.isnan(want) or got == want
            or math.isclose(got, want, rel_tol=1e-6, abs_tol=6e-7))
    expect(ok, f"{what} is shown as {s!r}, it is {want}")


def check_info(m, out):
    t, meta = m["trial"], m["trial"].metadata
    want = {
        "Trial ID": m["id"], "Location": str(meta.location),
        "Previous Trial ID": str(meta.previous_trial_id),
        "Sampling Worker ID": str(meta.sampling_worker_id),
        "Evaluating Worker ID": str(meta.evaluating_worker_id),
        "Time Sampled": when(meta.time_sampled),
    }
    for k, v in want.items():
        expect(field(out, k) == v, f"{k} is shown as {field(out, k)!r}, it is {v!r}\n{out}")
    state = {"pending": "PENDING", "evaluating": "EVALUATING", "success": "SUCCESS", "crashed": "CRASHED"}
    shown = field(out, "State").upper()
    expect(shown.endswith(state[m["state"]]), f"state shown as {shown}, it is {m['state']}")
    for k, v in (("Time Started", meta.time_started), ("Time End", meta.time_end)):
        got = field(out, k)
        if v is None:
            expect(not any(c.isdigit() for c in got), f"{k} is shown as {got}, there is none")
        else:
            expect(got == when(v), f"{k} is shown as {got!r}, it is {when(v)}")
    got = field(out, "Evaluation Duration")
    if meta.evaluation_duration is None:
        expect(not any(c.isdigit() for c in got), f"the duration is shown as {got}, there is none")
    else:
        expect(duration(got) == int(meta.evaluation_duration),
               f"the duration is shown as {got}, it is {meta.evaluation_duration} s")
    head = out.split("Metadata")[0]
    for k, v in m["config"].items():
        expect(f"{k}: {v}" in head, f"{k}: {v} is not shown in\n{out}")
    if m["report"] is None:
        expect("No report" in out, f"a report is shown for {m['state']}\n{out}")
    else:
        number(field(out, "Loss"), m["loss"], "the loss")
        number(field(out, "Cost"), m["cost"], "the cost")
        expect(field(out, "Reported As") == m["state"], f"reported as {field(out, 'Reported As')}")


def duration(s):
    days, _, hms = s.rpartition(", ")
    h, mi, sec = hms.split(":")
    return (int(days.split()[0]) * 86400 if days else 0) + int(h) * 3600 + int(mi) * 60 + int(sec)


def check_errors(model, out):
    bad = [m for m in model if m["state"] == "crashed"]
    if not bad:
        expect("No errors" in out and "Trial ID" not in out, f"errors without a failure:\n{out}")
        return
    parts = out.split("Error in Trial ID:")[1:]
    ids = [p.splitlines()[0].strip() for p in parts]
    expect(ids == [m["id"] for m in bad], f"errors of {ids}, failed were {[m['id'] for m in bad]}")
    for m, p in zip(bad, parts):
        expect(field(p, "Worker ID") == m["trial"].metadata.evaluating_worker_id, f"worker in {p}")
        expect(field(p, "Error Type") == "ValueError", f"type in {p}")
        expect(f"Error Message: {m['err']}\n" in p, f"message {m['err']!r} not in {p}")
        if m["tb"]:
            expect(m["tb"] in p, f"traceback not in {p}")


def rows_of(out):
    """The rows of the table of trials, by columns."""
    lines = out.split("Latest Trials:")[1].splitlines()
    start = next(i for i, ln in enumerate(lines) if ln.startswith("Sampled Time"))
    rows = []
    for ln in lines[start + 1:]:
        if not ln.strip():
            break
        w = ln.split()
        rows.append({"time": " ".join(w[:2]), "duration": " ".join(w[2:-4]), "id": w[-4],
                     "worker": w[-3], "state": w[-2], "loss": w[-1]})
    return rows


def check_status(model, out, flag):
    n = {s: sum(m["state"] == s for m in model) for s in ("pending", "evaluating", "success", "crashed")}
    want = {"Succeeded Trials": n["success"], "Failed Trials (Errors)": n["crashed"],
            "Active Trials": n["evaluating"], "Pending Trials": n["pending"] + n["evaluating"],
            "Pending Trials with Worker": n["evaluating"]}
    for k, v in want.items():
        expect(field(out, k) == str(v), f"{k}: {field(out, k)}, expected {v}\n{out}")
    expect(field(out, "Optimizer") == "random_search", f"optimizer {field(out, 'Optimizer')}")
    lo, best = c10.best_of(model)
    expect(float(field(out, "Best Loss Achieved")) == lo, f"best loss, expected {lo}:\n{out}")
    newest = model[::-1]
    shown = newest[:7] if not flag else [
        m for m in newest
        if m["state"] == {"--pending": "pending", "--evaluating": "evaluating", "--succeeded": "success"}[flag]]
    rows = rows_of(out)
    expect([r["id"] for r in rows] == [m["id"] for m in shown],
           f"status {flag} lists {[r['id'] for r in rows]}, expected {[m['id'] for m in shown]}")
    for m, r in zip(shown, rows):
        meta = m["trial"].metadata
        expect(r["time"] == when(meta.time_sampled), f"{m['id']}: sampled at {r['time']}")
        expect(r["worker"] == meta.sampling_worker_id, f"{m['id']}: worker {r['worker']}")
        expect(r["state"].lower() == m["state"], f"{m['id']}: state {r['state']}")
        number(r["loss"], m.get("loss"), f"the loss of {m['id']}")
        if m["report"] is not None:
            expect(duration(r["duration"]) == int(meta.evaluation_duration), f"{m['id']}: {r['duration']}")
        else:
            expect(duration(r["duration"]) <= 900, f"{m['id']}: {r['duration']}")
    if flag:
        return
    info = out.split("Optimizer Information:")[1]
    expect(field(info, "Name") == "my searcher" and field(info, "use_priors") == "False",
           f"optimizer information in\n{out}")
    expect("Best Trial:" in out, f"no best trial in\n{out}")
    tail = out.split("Best Trial:")[1]
    if not best:
        expect("No successful trial" in tail, f"a best trial is shown without a success\n{out}")
        return
    b = [m for m in best if m["id"] == field(tail, "ID")]
    expect(bool(b), f"best is {field(tail, 'ID')}, expected {[m['id'] for m in best]}")
    expect(float(field(tail, "Loss")) == lo, f"loss of the best in\n{out}")
    for k, v in b[0]["config"].items():
        expect(f"{k}: {v}" in tail, f"{k}: {v} of the best is not shown in\n{out}")


def check_results(model, out):
    lo, want = math.inf, []
    for m in sorted(model, key=lambda m: tuple(map(int, m["id"].split("_")))):
        if m["state"] == "success" and m["loss"] < lo:
            lo = m["loss"]
            want.append(m)
    lines = out.splitlines()
    start = next(i for i, ln in enumerate(lines) if ln.split()[:3] == ["ID", "Loss", "Config"])
    rows = [ln for ln in lines[start + 1:] if ln.strip() and set(ln.strip()) != {"-"}]
    if not want:
        expect(len(rows) == 1 and "No Incumbent" in rows[0], f"incumbents without a result\n{out}")
        return
    got = [r.split()[0] for r in rows]
    expect(got == [m["id"] for m in want[::-1]],
           f"incumbents {got}, expected {[m['id'] for m in want[::-1]]}:\n{out}")
    for m, r in zip(want[::-1], rows):
        number(r.split()[1], m["loss"], f"the loss of {m['id']}")
        for k, v in m["config"].items():
            expect(f"{k}: {v}" in r, f"{k}: {v} is not shown in {r}")


def inspect(case, ctx):
    """What the commands that read a run directory print, and that they leave it alone."""
    base = ctx.scratch()
    root, cwd = base / "root", base / "cwd"
    cwd.mkdir()
    with sut("creating the run"):
        model = fill(case, root)
    opt = [] if case["from_config"] else ["--root-directory", root]
    if case["from_config"]:
        (cwd / "run_config.yaml").write_text(f"root_directory: {root}\nmax_evaluations_total: 3\n")
    before = hashes(root)
    for command in case["commands"]:
        name, *flag = command.split()
        ctx.label(command)
        if case["absent"]:
            argv = {"info": ["info-config", "1"]}.get(name, [name])
            with sut(f"neps {command} of a directory that does not exist"):
                out = cli(*argv, *flag, "--root-directory", base / "nothing", cwd=cwd)
            expect("does not exist" in out and not (base / "nothing").exists(), f"{command} prints {out}")
            continue
        if name == "info":
            known = {m["id"]: m for m in model}
            i = str(case["which"] + 1)
            with sut(f"neps info-config {i} ({known.get(i, {}).get('state')})"):
                out = cli("info-config", i, *opt, cwd=cwd)
            if i in known:
                check_info(known[i], out)
            else:
                expect("No trial found" in out and i in out, f"info-config of an unknown trial prints {out}")
            case["which"] = (case["which"] + 1) % 11
            continue
        if flag == ["--plot"]:
            with sut("neps results --plot"):
                out = cli("results", "--plot", *opt, cwd=cwd)
            png = root / "incumbents_evolution.png"
            expect(png.exists() and png.read_bytes()[:4] == b"\x89PNG" and str(png) in out,
                   f"no plot; the command prints {out}")
            png.unlink()
            continue
        with sut(f"neps {command}"):
            out = cli(name, *flag, *opt, cwd=cwd)
        if name == "errors":
            check_errors(model, out)
        elif name == "status":
            check_status(model, out, flag[0] if flag else "")
        else:
            check_results(model, out)
    after = hashes(root)
    expect(after == before, f"{case['commands']} changed {set(after.items()) ^ set(before.items())}")
    extra = {p.name for p in cwd.iterdir()} - {"run_config.yaml", "cli.md"}
    expect(not extra, f"{case['commands']} left {extra}")
    if len(model) >= 2 and not case["absent"]:
        ctx.nontrivial(repr(case))


# --------------------------------------------------------------------------- running
FLAGS = {  # argument: (values the command line can give, its words)
    "max_evaluations_total": [1, 2, 4],
    "max_evaluations_per_run": [1, 2],
    "max_cost_total": [2.0, 3.5],
    "continue_until_max_evaluation_completed": [True],
    "overwrite_working_directory": [True],
    "post_run_summary": [True, False],
    "development_stage_id": ["dev", "3"],
    "task_id": ["t", "0"],
    "ignore_errors": [True],
    "loss_value_on_error": [5.0, -1.5, 0.0],
    "cost_value_on_error": [0.5, 2.0],
}
KWARGS = {
    "random_search": {"use_priors": [True, False]},
    "bayesian_optimization": {"initial_design_size": [7, 9], "sample_default_first": [True, False]},
    "hyperband": {"eta": [2, 3, 4], "initial_design_type": ["max_budget", "unique_configs"],
                  "sample_default_first": [True, False]},
    "priorband": {"eta": [2, 3], "prior_confidence": ["low", "medium", "high"],
                  "random_interleave_prob": [0.25, 1e-1]},
}


@st.composite
def run_cases(draw):
    fid = draw(st.booleans())
    spec = draw(spaces.space_specs(max_size=3, fidelity="always" if fid else "never", prior="always"))
    alg = draw(st.sampled_from(
        ["default", "hyperband", "priorband"] if fid else ["random_search", "bayesian_optimization", "default"]))
    args = {}
    for k, vals in FLAGS.items():
        where = draw(st.sampled_from(["cli", "yaml", "both", "neither", "neither"]))
        if k == "max_evaluations_total" and where == "neither":
            where = "cli"
        args[k] = {"where": where, "cli": draw(st.sampled_from(vals)),
                   "yaml": draw(st.sampled_from([v for v in c22.VALUES[k] if v is not None]))}
    return {
        "spec": spec, "alg": alg, "args": args,
        "kw": {k: draw(st.sampled_from(v)) for k, v in KWARGS.get(alg, {}).items() if draw(st.booleans())},
        "where": {k: draw(st.sampled_from(["cli", "cli", "yaml", "both"]))
                  for k in ("run_pipeline", "pipeline_space", "root_directory", "searcher")},
        "relative": draw(st.booleans()), "suffix": draw(st.booleans()),
        "equals": draw(st.booleans()), "bools": draw(st.sampled_from(["True", "true", "TRUE"])),
        "order": draw(st.permutations([*FLAGS, "run_pipeline", "pipeline_space", "root_directory", "searcher"])),
        "fail": draw(st.integers(0, 3)), "before": draw(st.booleans()), "seed": draw(st.integers(0, 2**31)),
    }


def word(v, case):
    if isinstance(v, bool):
        return case["bools"] if v else {"True": "False", "true": "false", "TRUE": "FALSE"}[case["bools"]]
    if isinstance(v, float) and case["equals"]:
        return f"{v * 100:g}e-2"
    return str(v)


def described(case, d):
    """(function arguments, words of the command line) of the same run in directory d."""
    d.mkdir()
    code, space, root = d / "code.py", d / "space.yaml", d / "results"
    code.write_text(c22.MODULE.format(fail=case["fail"], spec=case["spec"]))
    space.write_text("\n".join(c22.dump(c22.inline_space(case["spec"]))) + "\n")
    mod = c22.load_module(code)
    ref, argv, tree = {}, [], {}

    def shown(path, always=False):
        return str(path.relative_to(d)) if case["relative"] and not always else str(path)

    def put(name, value):
        argv.extend([f"--{name}={value}"] if case["equals"] else [f"--{name}", str(value)])

    for k in case["order"]:
        if k in FLAGS:
            a = case["args"][k]
            if a["where"] in ("yaml", "both"):
                tree[k] = c22.plain(a["yaml"])
            ref[k] = a["cli"] if a["where"] in ("cli", "both") else (
                a["yaml"] if a["where"] == "yaml" else c22.DEFAULT[k])
            if a["where"] in ("cli", "both"):
                name = k.replace("_", "-")
                if isinstance(a["cli"], bool):
                    argv.append(f"--{name}" if a["cli"] else f"--no-{name}")
                else:
                    put(name, a["cli"])
            continue
        where = case["where"][k]
        if k == "run_pipeline":
            ref[k] = mod.pipeline
            if where in ("yaml", "both"):
                tree[k] = {"path": json.dumps(str(code)),
                           "name": "other_pipeline" if where == "both" else "pipeline"}
            if where != "yaml":
                put("run-pipeline", f"{str(code)[:-3] if case['suffix'] else code}:pipeline")
        elif k == "pipeline_space":
            ref[k] = spaces.build_params(case["spec"])
            if where == "yaml":
                tree[k] = c22.inline_space(case["spec"])
            elif where == "both":
                tree[k] = {"path": json.dumps(str(code)), "name": "OTHER"}
            if where != "yaml":
                put("pipeline-space", shown(space))
        elif k == "root_directory":
            ref[k] = str(root)
            if where in ("yaml", "both"):
                tree[k] = json.dumps(str(d / "elsewhere" if where == "both" else root))
            if where != "yaml":
                put("root-directory", shown(root, always=True))
        elif k == "searcher":
            ref[k] = case["alg"]
            if where in ("yaml", "both"):
                tree[k] = case["alg"] if where == "yaml" else "random_search"
            if where != "yaml":
                put("searcher", case["alg"])
    kw = case["kw"]
    if kw:
        ref.update(kw)
        argv += ["--searcher-kwargs", *(f"{k}={word(v, case)}" for k, v in kw.items())]
    if tree:
        (d / "run_args.yaml").write_text("\n".join(c22.dump(tree)) + "\n")
        argv[:0] = ["--run-args", shown(d / "run_args.yaml")]
    return ref, argv, root


def look(root, cwd, seed):
    """The commands show what is in the directory of a run."""
    model = []
    for i, t in nepsrun.read_trials(root).items():
        r = t.report
        model.append({
            "id": i, "config": dict(t.config), "trial": t, "report": r, "state": t.state.name.lower(),
            "loss": r and r.loss, "cost": r and r.cost, "err": "planned", "tb": None})
    with sut("neps results"):
        check_results(model, cli("results", "--root-directory", root, cwd=cwd))
    with sut("neps errors"):
        out = cli("errors", "--root-directory", root, cwd=cwd)
    bad = [m["id"] for m in model if m["state"] == "crashed"]
    got = [p.splitlines()[0].strip() for p in out.split("Error in Trial ID:")[1:]]
    expect(sorted(got) == sorted(bad), f"neps errors shows {got}, failed were {bad}")
    m = model[seed % len(model)] if model else None
    if m:
        with sut(f"neps info-config {m['id']}"):
            check_info(m, cli("info-config", m["id"], "--root-directory", root, cwd=cwd))


def run(case, ctx):
    """`neps run` with options is neps.run with the same arguments."""
    base, res = ctx.scratch(), []
    for tag in ("ref", "cli"):
        d = base / tag
        ref, argv, root = described(case, d)
        if case["before"]:
            # the directory already holds a run
            c22.outcome({**ref, "max_evaluations_total": 1, "max_cost_total": None,
                         "max_evaluations_per_run": None, "overwrite_working_directory": False}, case["seed"])
        if tag == "ref":
            err, calls = c22.outcome(ref, case["seed"] + 1)
        else:
            nepsrun.CALLS.clear()
            seed_everything(case["seed"] + 1)
            try:
                cli("run", *argv, cwd=d)
                err = None
            except Exception as e:  # compared with the reference
                err = type(e).__name__
            except SystemExit as e:
                err = f"exit {e.code}"
            calls = list(nepsrun.CALLS)
        expect(not (d / "elsewhere").exists(), f"{tag}: results were written to the overridden directory")
        res.append((err, calls, *c22.see(root)))
    (e1, c1, s1, f1), (e2, c2, s2, f2) = res
    args = d / "run_args.yaml"
    shown = f"\n--- neps run {' '.join(argv)}\n--- file:\n{args.read_text() if args.exists() else ''}"
    expect(e1 == e2, f"ends with {e2}, neps.run with {e1}{shown}")
    expect(c1 == c2, f"evaluates {c2}, neps.run {c1}{shown}")
    for k in sorted({*s1, *s2}):
        expect(s1.get(k) == s2.get(k), f"{k}: {s2.get(k)}, with neps.run {s1.get(k)}{shown}")
    expect(f1 == f2, f"summary files {f2}, with neps.run {f1}{shown}")
    for run_dir, trials in s2.items():
        if isinstance(trials, list) and e2 is None:
            look(root / run_dir, base, case["seed"])
    at = Path()
    for k, pre in (("task_id", "task_"), ("development_stage_id", "dev_")):
        if ref[k] is not None:
            at = at / f"{pre}{ref[k]}"
    dirs = {k for k, v in s2.items() if isinstance(v, list)}
    expect(dirs in ({str(at)}, set()) and (dirs or not c2), f"the run is in {dirs}, not in {at}{shown}")
    ctx.label(case["alg"])
    if e1:
        ctx.label(f"both raise {e1}")
    if c1 and sum(a["where"] in ("cli", "both") for a in case["args"].values()) >= 2:
        ctx.nontrivial(repr(case))


# --------------------------------------------------------------------------- templates
@st.composite
def init_cases(draw):
    return {
        "template": draw(st.sampled_from([None, "basic", "complete", "complete"])),
        "path": draw(st.sampled_from([None, "my.yaml", "sub/other.yaml"])),
        "exists": draw(st.sampled_from([None, None, "", "root_directory: here\n"])),
        "total": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 10**6)),
        "lower": draw(st.integers(-5, 5)), "size": draw(st.integers(1, 9)),
        "via": draw(st.booleans()), "again": draw(st.booleans()),
    }


PIPE = '''
import vlib.nepsrun as N
def example_pipeline(**config):
    N.CALLS.append(dict(config))
    return {"loss": N.loss_of(config), "cost": 1.0}
'''


def init(case, ctx):
    """`neps init` writes a template that runs once filled in, and overwrites nothing."""
    import yaml

    import neps

    d = ctx.scratch()
    (d / "sub").mkdir()
    (d / "code.py").write_text(PIPE)
    f = d / (case["path"] or "run_config.yaml")
    argv = ["init"]
    if case["path"]:
        argv += ["--config-path", case["path"]]
    if case["template"]:
        argv += ["--template", case["template"]]
    if case["exists"] is not None:
        f.write_text(case["exists"])
    with sut("neps " + " ".join(argv)):
        out = cli(*argv, cwd=d)
    if case["exists"] is not None:
        expect(f.read_text() == case["exists"], f"neps init changed an existing file to\n{f.read_text()}")
        expect("already exist" in out, f"neps init of an existing file prints {out!r}")
        ctx.label("exists")
        return
    names = {p.name for p in d.iterdir()} - {"sub", "code.py", "cli.md", f.name}
    expect(f.exists() and not names, f"neps init writes {names}")
    text = f.read_text()
    if case["again"]:
        with sut("neps init again"):
            cli(*argv, "--template", "basic", cwd=d)
        expect(f.read_text() == text, "a second neps init changed the file")
    tree = yaml.safe_load(text)
    expect(isinstance(tree, dict), f"the template is {tree!r}")
    ctx.label(case["template"] or "basic")
    # fill in what is left open
    tree["run_pipeline"] = {"path": str(d / "code.py"), "name": "example_pipeline"}
    tree["root_directory"] = str(d / "results")
    tree["max_evaluations_total"] = case["total"]
    lo, n = case["lower"], case["size"]
    if (case["template"] or "basic") == "basic":
        sp = tree["pipeline_space"]
        sp["float_parameter_name"].update(lower=float(lo), upper=float(lo + n))
        sp["int_parameter_name"].update(lower=lo, upper=lo + n)
        want = {"float_parameter_name": lambda v: isinstance(v, float) and lo <= v <= lo + n,
                "int_parameter_name": lambda v: isinstance(v, int) and lo <= v <= lo + n,
                "categorical_parameter_name": lambda v: v in ("choice1", "choice2", "choice3"),
                "constant_parameter_name": lambda v: v == 17}
    else:
        want = {"learning_rate": lambda v: isinstance(v, float) and 1e-5 <= v <= 0.1,
                "epochs": lambda v: isinstance(v, int) and 5 <= v <= 20,
                "optimizer": lambda v: v in ("adam", "sgd", "adamw"),
                "batch_size": lambda v: v == 64}
    f.write_text(yaml.safe_dump(tree))
    nepsrun.CALLS.clear()
    seed_everything(case["seed"])
    with sut(f"running the filled in template {case['template']}"):
        if case["via"]:
            cli("run", "--run-args", f.name if f.parent == d else str(f), cwd=d)
        else:
            neps.run(run_args=str(f))
    calls = list(nepsrun.CALLS)
    expect(len(calls) == case["total"], f"{len(calls)} evaluations instead of {case['total']}")
    for c in calls:
        expect(set(c) == set(want) and all(ok(c[k]) for k, ok in want.items()),
               f"the template {case['template']} evaluates {c}")
    out = cli("status", "--root-directory", d / "results", cwd=d)
    expect(field(out, "Succeeded Trials") == str(case["total"]), f"status after the run:\n{out}")
    if case["template"] == "complete":
        expect(field(out, "Optimizer") == "hyperband", f"the template asks for hyperband:\n{out}")
    ctx.nontrivial(repr(case))


FACETS = [
    Facet("inspect", inspect_cases, inspect, quick=250, thorough=5000, shards=3,
          rule="the directory has at least two trials and was read by a command"),
    Facet("run", run_cases, run, quick=160, thorough=3000, shards=4,
          rule="something was evaluated, and at least two settings came from the command line"),
    Facet("init", init_cases, init, quick=60, thorough=800, shards=1,
          rule="a template was written, filled in and run"),
]
