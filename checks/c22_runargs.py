"""C22: a run described in a run_args file is the run described by function arguments."""

from __future__ import annotations

import importlib.util
import json
from pathlib import Path

from hypothesis import strategies as st

from vlib import nepsrun, spaces
from vlib.core import Facet, expect, seed_everything, sut

# Every value the file may hold for an argument, besides being absent.
VALUES = {
    "max_evaluations_total": [1, 2, 3, 5],
    "max_evaluations_per_run": [None, 1, 2],
    "max_cost_total": [None, 2, 2.0, 3.5],
    "continue_until_max_evaluation_completed": [True, False],
    "overwrite_working_directory": [True, False],
    "post_run_summary": [True, False],
    "development_stage_id": [None, 0, 3, "dev"],
    "task_id": [None, 0, 7, "t"],
    "ignore_errors": [True, False],
    "loss_value_on_error": [None, 5.0, -1.5],
    "cost_value_on_error": [None, 0.5, 2.0],
}
DEFAULT = {
    "max_evaluations_total": None, "max_evaluations_per_run": None, "max_cost_total": None,
    "continue_until_max_evaluation_completed": False, "overwrite_working_directory": False,
    "post_run_summary": True, "development_stage_id": None, "task_id": None,
    "ignore_errors": False, "loss_value_on_error": None, "cost_value_on_error": None,
}
KWARGS = {
    "random_search": {"use_priors": [True, False], "ignore_fidelity": [True, False]},
    "bayesian_optimization": {"initial_design_size": [7, 9], "sample_default_first": [True, False]},
    "hyperband": {"eta": [2, 3, 4], "initial_design_type": ["max_budget", "unique_configs"],
                  "sample_default_first": [True, False]},
    "class": {"use_priors": [True, False], "ignore_fidelity": [True, False]},
}
GROUPS = ["budget", "Parallelization", "error_handling", "monitoring", "x"]
NOTHING = ["null", "~", "", "None"]


@st.composite
def cases(draw):
    fid = draw(st.booleans())
    spec = draw(spaces.space_specs(max_size=3, fidelity="always" if fid else "never", prior="always"))
    args = {}
    for k, vals in VALUES.items():
        where = draw(st.sampled_from(["func", "yaml", "both", "neither", "neither", "nothing"]))
        if k == "max_evaluations_total" and where in ("neither", "nothing"):
            where = "yaml"
        args[k] = {
            "where": where,
            "func": draw(st.sampled_from(vals)),
            # what the file says is never "absent" when it is meant to be present
            "yaml": draw(st.sampled_from([v for v in vals if v is not None])),
            "nothing": draw(st.sampled_from(NOTHING)),
        }
    alg = draw(st.sampled_from(["random_search", "bayesian_optimization", "class"] + ["hyperband"] * 2 * fid))
    form = "class" if alg == "class" else draw(st.sampled_from(["name", "dict", "file"]))
    kw = {
        k: {"where": draw(st.sampled_from(["func", "both", "neither"] if form == "name" else ["func", "yaml", "both", "neither"])),
            "func": draw(st.sampled_from(v)), "yaml": draw(st.sampled_from(v))}
        for k, v in KWARGS[alg].items()
    }
    names = [*VALUES, "run_pipeline", "pipeline_space", "root_directory", "searcher", "pre_load_hooks"]
    return {
        "spec": spec,
        "args": args,
        "run_pipeline": draw(st.sampled_from(["func", "yaml", "both"])),
        "pipeline_space": draw(st.sampled_from(["func", "inline", "file", "python", "both"])),
        "root_directory": draw(st.sampled_from(["func", "yaml", "both", "func path"])),
        "searcher": draw(st.sampled_from(["func", "yaml", "yaml", "yaml", "both"])),
        "pre_load_hooks": draw(st.sampled_from(["neither", "func", "yaml", "both"])),
        "alg": alg, "form": form, "kw": kw, "named": draw(st.booleans()),
        "group": {k: draw(st.lists(st.sampled_from(GROUPS), max_size=2)) for k in names},
        "order": draw(st.permutations(names)),
        "suffix": draw(st.booleans()),
        "before": draw(st.booleans()),
        "fail": draw(st.integers(0, 3)),
        "seed": draw(st.integers(0, 2**31)),
    }


MODULE = '''
from neps.search_spaces import *  # noqa
import vlib.nepsrun as N
from vlib import spaces
from neps.optimizers.random_search.optimizer import RandomSearch

CALLS = N.CALLS
FAIL = {fail}

def pipeline(**config):
    CALLS.append(dict(config))
    if FAIL and len(CALLS) % (FAIL + 1) == FAIL:
        raise RuntimeError("planned")
    return {{"loss": N.loss_of(config), "cost": 1.0 + 0.25 * (len(CALLS) % 3)}}

def other_pipeline(**config):
    CALLS.append("other")
    return 0.0

def hook(sampler):
    CALLS.append("hook")
    return sampler

def other_hook(sampler):
    CALLS.append("other hook")
    return sampler

SPACE = spaces.build_params({spec!r})
OTHER = {{"nobody": FloatParameter(0.0, 1.0)}}

class Mine(RandomSearch):
    def __init__(self, pipeline_space, **kw):
        super().__init__(pipeline_space=pipeline_space, **kw)
'''.replace("from neps.search_spaces import *  # noqa", "from neps.search_spaces import FloatParameter")


def plain(v):
    """The YAML of a scalar."""
    return repr(v) if isinstance(v, float) else json.dumps(v)


def dump(tree, indent=0):
    out = []
    for k, v in tree.items():
        if isinstance(v, dict):
            out.append("  " * indent + f"{k}:")
            out += dump(v, indent + 1)
        else:
            out.append("  " * indent + f"{k}: {v}")
    return out


def inline_space(spec):
    out = {}
    for k, (kind, d) in spec.items():
        if kind == "const":
            out[k] = plain(d["value"])
        else:
            out[k] = {
                "type": kind,
                **{a: "[" + ", ".join(map(plain, b)) + "]" if isinstance(b, list) else plain(b) for a, b in d.items()},
            }
    return out


def load_module(path):
    s = importlib.util.spec_from_file_location("c22_mod", path)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def outcome(kw, seed):
    """Run neps and describe everything a user sees of it."""
    import neps

    nepsrun.CALLS.clear()
    seed_everything(seed)
    try:
        neps.run(**kw)
        err = None
    except Exception as e:  # compared with the reference, not judged here
        err = type(e).__name__
    return err, list(nepsrun.CALLS)


def see(root):
    root = Path(root)
    seen = {}
    for d in sorted(root.rglob("optimizer_info.yaml")) + sorted(root.rglob(".optimizer_info*")):
        if d.is_dir():
            d = next(iter(d.glob("*.yaml")), None)
            if d is None:
                continue
        import yaml

        info = yaml.safe_load(d.read_text())
        info = info.get("info", info)
        seen[str(d.relative_to(root))] = (info.get("searcher_alg"), info.get("searcher_args"))
    for run in sorted({p.parent for p in root.rglob("configs") if p.is_dir()}):
        ts = []
        for i, t in sorted(nepsrun.read_trials(run).items()):
            r = t.report
            ts.append((i, t.config, t.state.name, r and (r.loss, r.cost, r.reported_as)))
        seen[str(run.relative_to(root))] = ts
    files = sorted(
        str(p.relative_to(root)) for p in root.rglob("*.csv")
    )
    return seen, files


def sides(case, base: Path, tag: str):
    """(reference function arguments, function arguments + file) of the same run."""
    d = base / tag
    d.mkdir()
    code = d / "code.py"
    code.write_text(MODULE.format(fail=case["fail"], spec=case["spec"]))
    root = d / "results"
    ref, func, tree = {}, {}, {}

    def put(key, value):
        node = tree
        for g in case["group"][key]:
            node = node.setdefault(g, {})
        node[key] = value

    mod = load_module(code)
    path = str(code)[:-3] if case["suffix"] else str(code)
    for key in case["order"]:
        if key in VALUES:
            a = case["args"][key]
            if a["where"] in ("func", "both"):
                func[key] = ref[key] = a["func"]
            if a["where"] in ("yaml", "both"):
                put(key, plain(a["yaml"]))
            if a["where"] == "yaml":
                ref[key] = a["yaml"]
            if a["where"] == "nothing":
                put(key, a["nothing"])
            if a["where"] in ("neither", "nothing"):
                ref[key] = DEFAULT[key]
        elif key == "run_pipeline":
            ref[key] = mod.pipeline
            if case[key] in ("func", "both"):
                func[key] = mod.pipeline
            if case[key] in ("yaml", "both"):
                put(key, {"path": json.dumps(path), "name": "other_pipeline" if case[key] == "both" else "pipeline"})
        elif key == "pipeline_space":
            ref[key] = spaces.build_params(case["spec"])
            if case[key] in ("func", "both"):
                func[key] = spaces.build_params(case["spec"])
            if case[key] == "inline":
                put(key, inline_space(case["spec"]))
            elif case[key] == "file":
                f = d / "space.yaml"
                f.write_text("\n".join(dump(inline_space(case["spec"]))) + "\n")
                put(key, json.dumps(str(f)))
            elif case[key] in ("python", "both"):
                put(key, {"path": json.dumps(path), "name": "OTHER" if case[key] == "both" else "SPACE"})
        elif key == "root_directory":
            ref[key] = str(root)
            if case[key] != "yaml":
                func[key] = root if case[key] == "func path" else str(root)
            if case[key] in ("yaml", "both"):
                put(key, json.dumps(str(d / "elsewhere") if case[key] == "both" else str(root)))
        elif key == "pre_load_hooks":
            ref[key] = None if case[key] == "neither" else [mod.hook]
            if case[key] in ("func", "both"):
                func[key] = [mod.hook]
            if case[key] in ("yaml", "both"):
                put(key, {"other_hook" if case[key] == "both" else "hook": json.dumps(path)})
    # the searcher: its own arguments may come from both sides too
    alg, form, kw = case["alg"], case["form"], case["kw"]
    infile = {k: plain(v["yaml"]) for k, v in kw.items() if v["where"] in ("yaml", "both")}
    effective = {}
    for k, v in kw.items():
        if v["where"] in ("func", "both"):
            effective[k] = func[k] = v["func"]
        elif v["where"] == "yaml" and case["searcher"] == "yaml":
            effective[k] = v["yaml"]
    ref.update(effective)
    ref["searcher"] = mod.Mine if alg == "class" else alg
    if case["searcher"] in ("func", "both"):
        func["searcher"] = ref["searcher"]
    if case["searcher"] == "both":
        put("searcher", "random_search" if alg != "random_search" else "bayesian_optimization")
    elif case["searcher"] == "yaml":
        if form == "name":
            put("searcher", alg)
        elif form == "dict":
            put("searcher", {"strategy": alg, **infile, **({"name": "mine"} if case["named"] else {})})
        elif form == "class":
            put("searcher", {"path": json.dumps(path), "name": "Mine", **infile})
        else:
            import neps
            import yaml

            src = Path(neps.__file__).parent / "optimizers" / "default_searchers" / f"{alg}.yaml"
            full = {k: plain(v) for k, v in yaml.safe_load(src.read_text()).items()}
            f = d / "my_searcher.yaml"
            f.write_text("\n".join(dump({**full, **infile})) + "\n")
            put("searcher", json.dumps(str(f)[:-5] if case["suffix"] else str(f)))
    args = d / "run_args.yaml"
    args.write_text("\n".join(dump(tree) or ["{}"]) + "\n")
    func["run_args"] = args if case["named"] else str(args)
    return d, root, ref, func


def merged(case, ctx):
    base = ctx.scratch()
    res = []
    for tag in ("ref", "file"):
        d, root, ref, func = sides(case, base, tag)
        kw = ref if tag == "ref" else func
        if case["before"]:
            # the directory already holds a run
            first = {**kw, "max_evaluations_total": 1, "max_cost_total": None, "pre_load_hooks": None,
                     "max_evaluations_per_run": None, "overwrite_working_directory": False}
            outcome(first, case["seed"])
        err, calls = outcome(kw, case["seed"] + 1)
        expect(not (d / "elsewhere").exists(), f"{tag}: results were written to the overridden directory")
        res.append((err, calls, see(root), sorted(p.name for p in d.iterdir() if p.name not in ("__pycache__",))))
        if tag == "file":
            text = func["run_args"] if isinstance(func["run_args"], Path) else Path(func["run_args"])
            text = text.read_text()
    (e1, c1, (s1, f1), _), (e2, c2, (s2, f2), _) = res
    shown = f"\n--- file:\n{text}\n--- function: { {k: v for k, v in func.items() if k not in ('pipeline_space',)} }"
    expect(e1 == e2, f"ends with {e2}, as function arguments with {e1}{shown}")
    expect(c1 == c2, f"evaluates {c2}, as function arguments {c1}{shown}")
    for k in sorted({*s1, *s2}):
        expect(s1.get(k) == s2.get(k), f"{k}: {s2.get(k)}, as function arguments {s1.get(k)}{shown}")
    # the directory of the run, from the values in force
    at = Path()
    for k, pre in (("task_id", "task_"), ("development_stage_id", "dev_")):
        if ref[k] is not None:
            at = at / f"{pre}{ref[k]}"
    dirs = {k for k, v in s2.items() if isinstance(v, list)}
    expect(dirs in ({str(at)}, set()) and (dirs or not c2), f"the run is in {dirs}, not in {at}{shown}")
    if e2 is None:
        expect(bool(f2) == bool(ref["post_run_summary"]), f"summary files: {f2}{shown}")
    expect(f1 == f2, f"summary files {f2}, as function arguments {f1}{shown}")
    ctx.label(f"searcher {case['form']}")
    if e1:
        ctx.label(f"both raise {e1}")
    ctx.nontrivial(sum(a["where"] in ("yaml", "both") for a in case["args"].values()) >= 2 and bool(c1))


# ---------------------------------------------------------------- what must be refused

WRONG = {
    "max_evaluations_total": ["many", 2.5, [1]],
    "max_evaluations_per_run": ["1", 1.5],
    "max_cost_total": ["1.0", [2]],
    "continue_until_max_evaluation_completed": ["always", 1, 0.5],
    "overwrite_working_directory": ["nope", 1],
    "post_run_summary": ["maybe", 0],
    "ignore_errors": ["all", 1],
    "loss_value_on_error": ["big", True, [1.0]],
    "cost_value_on_error": ["small", True],
    "root_directory": [3, 4.5, True],
    "pipeline_space": [3, True],
    "searcher": [3, 4.5],
}
KINDS = ["unknown", "type", "type", "type", "type", "type", "type", "missing", "no file", "broken", "no object", "no module",
         "unknown searcher", "foreign class"]


@st.composite
def bad_cases(draw):
    kind = draw(st.sampled_from(KINDS))
    c = {
        "kind": kind,
        "group": draw(st.lists(st.sampled_from(GROUPS), max_size=2)),
        "func": {k: draw(st.booleans()) for k in ("run_pipeline", "pipeline_space", "root_directory", "max_evaluations_total")},
        "key": draw(st.sampled_from(["max_evaluation_total", "epochs", "Searcher", "rootdirectory", "hooks", "budget_total"])),
        "missing": draw(st.sampled_from(["run_pipeline", "pipeline_space", "root_directory", "max_evaluations_total"])),
        "obj": draw(st.sampled_from(["run_pipeline", "pipeline_space", "searcher", "pre_load_hooks"])),
    }
    k = draw(st.sampled_from(sorted(WRONG)))
    c["wrong"] = (k, draw(st.sampled_from(WRONG[k])))
    return c


def refused(case, ctx):
    import neps

    d = ctx.scratch()
    (d / "code.py").write_text(MODULE.format(fail=0, spec={"a": ("float", {"lower": 0.0, "upper": 1.0})}))
    mod = load_module(d / "code.py")
    path = str(d / "code.py")
    kind = case["kind"]
    full = {
        "run_pipeline": (mod.pipeline, {"path": path, "name": "pipeline"}),
        "pipeline_space": (mod.SPACE, {"a": {"lower": 0.0, "upper": 1.0}}),
        "root_directory": (str(d / "out"), str(d / "out")),
        "max_evaluations_total": (1, 1),
    }
    func, tree = {"searcher": None}, {}
    del func["searcher"]
    for k, (a, b) in full.items():
        if kind == "missing" and k == case["missing"]:
            continue
        if case["func"][k] and not (kind == "type" and k == case["wrong"][0]):
            func[k] = a
        else:
            tree[k] = b
    bad = {}
    want: tuple = ()
    if kind == "unknown":
        bad, want = {case["key"]: 3}, (KeyError,)
    elif kind == "type":
        k, v = case["wrong"]
        tree.pop(k, None)
        bad, want = {k: v}, (TypeError,)
    elif kind == "missing":
        want = (ValueError,)
    elif kind == "no file":
        want = (FileNotFoundError,)
    elif kind == "broken":
        want = (ValueError,)
    elif kind in ("no object", "no module"):
        p = path if kind == "no object" else str(d / "nowhere.py")
        o = case["obj"]
        func.pop(o, None)
        tree.pop(o, None)
        bad = {o: {"nothing_here": p} if o == "pre_load_hooks" else {"path": p, "name": "nothing_here"}}
        want = (ImportError,)
    elif kind == "unknown searcher":
        bad, want = {"searcher": "no_such_searcher"}, (FileNotFoundError,)
    elif kind == "foreign class":
        (d / "code.py").write_text((d / "code.py").read_text() + "\nclass Foreign:\n    pass\n")
        bad, want = {"searcher": {"path": path, "name": "Foreign"}}, (TypeError,)
    node = tree
    for g in case["group"]:
        node = node.setdefault(g, {})
    node.update(bad)
    import yaml

    nepsrun.CALLS.clear()
    f = d / "args.yaml"
    text = yaml.safe_dump(tree)
    if kind == "broken":
        text += "\nx: [1, 2\ny: }\n"
    if kind != "no file":
        f.write_text(text)
    try:
        neps.run(run_args=f, **func)
    except Exception as e:
        expect(isinstance(e, want), f"{kind}: {type(e).__name__}: {e} instead of {want[0].__name__}\n{text}")
    else:
        expect(False, f"{kind}: the run was started with\n{text}")
    expect(not (d / "out").exists(), f"{kind}: the refused run left a result directory\n{text}")
    expect(not mod.CALLS, f"{kind}: the refused run evaluated {mod.CALLS}")
    ctx.label(kind)
    ctx.nontrivial()


FACETS = [
    Facet("merge", cases, merged, 400, 6000, 6,
          rule="at least two settings come from the file and something was evaluated"),
    Facet("refused", bad_cases, refused, 600, 4000, 3, rule="a file with a mistake was refused"),
]
