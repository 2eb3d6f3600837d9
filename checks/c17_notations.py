"""C17: a space written in YAML or ConfigSpace is the space written in Python."""

from __future__ import annotations

import json
import re
from pathlib import Path

from hypothesis import strategies as st

from vlib import spaces
from vlib.core import Facet, expect, seed_everything, sut

# ---------------------------------------------------------------- writing YAML


def float_forms(v: float) -> list[str]:
    """Spellings of `v` in decimal and scientific notation that denote exactly `v`."""
    out = [repr(v)]
    if not re.search("[eE.]", repr(v)):
        out.append(repr(v) + ".0")
    for n in range(18):
        m, e = f"{v:.{n}e}".split("e")
        if float(f"{m}e{e}") != v:
            continue
        ex = int(e)
        out += [f"{m}e{ex}", f"{m}E{ex}", f"{m}e{e}"]
        if ex >= 0:
            out += [f"{m}e+{ex}", f"{m}E+{ex:02d}"]
        if v > 0:
            out.append(f"+{m}e{ex}")
        if "." not in m:
            out.append(f"{m}.e{ex}")
            out.append(f"{m}.0e{ex}")
            if abs(int(m)) < 10:
                s = "-" if m.startswith("-") else ""
                w = f"{s}.{m.lstrip('-')}e{ex + 1}"
                if float(w) == v:
                    out.append(w)
                w = f"{s}0{m.lstrip('-')}e{ex}"
                if float(w) == v:
                    out.append(w)
        break
    for n in range(1, 16):
        t = f"{v:.{n}f}"
        if float(t) == v:
            out.append(t)
            out.append(t + "00")
            break
    return [t for t in dict.fromkeys(out) if float(t) == v]


SCI = re.compile(r"[eE]")
TRUE = ["true", "True", "TRUE", "on", "yes", "Yes"]
FALSE = ["false", "False", "FALSE", "off", "no", "No"]
SAFE = re.compile(r"^[A-Za-z][a-z]*$")
WORDS = {w.lower() for w in TRUE + FALSE} | {"null", "nan", "inf", "y", "n"}


def scalar(draw, v) -> str:
    if isinstance(v, bool):
        return draw(st.sampled_from(TRUE if v else FALSE))
    if isinstance(v, float):
        return draw(st.sampled_from(float_forms(v)))
    if isinstance(v, int):
        return str(v)
    forms = [json.dumps(v)]
    if "'" not in v:
        forms.append(f"'{v}'")
    if SAFE.match(v) and v.lower() not in WORDS:
        forms.append(v)
    return draw(st.sampled_from(forms))


def int_forms(v: int) -> list[str]:
    out = [str(v)]
    for k in (1, 2, 3):
        if v and v % 10**k == 0:
            out += [f"{v // 10**k}e{k}", f"{v // 10**k}E+{k}", f"{v // 10**k}.0e{k}"]
    return out


def as_int(v: float) -> list[str]:
    return [str(int(v))] if v == int(v) else []


def entry(draw, name, kind, d, *, drop_log=True):
    """The lines of one parameter."""
    if kind == "const":
        return [f"{name}: {scalar(draw, d['value'])}"]
    typ = draw(st.sampled_from([None, None, "word", "Word"]))
    words = {"float": ["float"], "int": ["int", "integer"], "cat": ["cat", "categorical"]}[kind]
    pairs = []
    if kind == "int":
        es = typ is not None
        lo, up = (
            (draw(st.sampled_from(int_forms(d[k]))) if es else str(d[k]))
            for k in ("lower", "upper")
        )
        pairs += [("lower", lo), ("upper", up)]
    elif kind == "float":
        # `type: float` allows to write an integer where a float is meant
        pairs += [
            (k, draw(st.sampled_from(float_forms(d[k]) + as_int(d[k]) * (2 * bool(typ)))))
            for k in ("lower", "upper")
        ]
    else:
        cs = [scalar(draw, c) for c in d["choices"]]
        if draw(st.booleans()):
            pairs.append(("choices", "[" + ", ".join(cs) + "]"))
        else:
            pairs.append(("choices", "".join(f"\n    - {c}" for c in cs)))
    if "default" in d:
        if kind == "float":
            forms = float_forms(d["default"]) + as_int(d["default"])
            pairs.append(("default", draw(st.sampled_from(forms))))
        elif kind == "int":
            pairs.append(("default", draw(st.sampled_from(int_forms(d["default"])))))
        else:
            pairs.append(("default", scalar(draw, d["default"])))
        pairs.append(("default_confidence", scalar(draw, d["default_confidence"])))
    if kind != "cat" and (d["log"] or draw(st.booleans())):
        pairs.append(("log", scalar(draw, d["log"])))
    if d.get("is_fidelity") or (kind != "cat" and draw(st.booleans())):
        pairs.append(("is_fidelity", scalar(draw, bool(d.get("is_fidelity")))))
    if typ:
        w = draw(st.sampled_from(words))
        pairs.append(("type", w.capitalize() if typ == "Word" else w))
    pairs = draw(st.permutations(pairs))
    return [f"{name}:"] + [f"  {k}: {v}" for k, v in pairs]


@st.composite
def documents(draw, **kw):
    spec = draw(spaces.space_specs(**kw))
    lines = []
    for name, (kind, d) in spec.items():
        lines += entry(draw, name, kind, d)
        if draw(st.integers(0, 4)) == 0:
            lines.append("# a comment: 1e5")
    if draw(st.booleans()):
        lines = ["pipeline_space:"] + ["  " + ln.replace("\n", "\n  ") for ln in lines]
    return {
        "spec": spec,
        "text": "\n".join(lines) + "\n",
        "via": draw(st.sampled_from(["str", "path", "dict"])),
        "seed": draw(st.integers(0, 2**31)),
    }


ATTRS = (
    "lower", "upper", "log", "is_fidelity", "default", "default_confidence_choice",
    "default_confidence_score", "choices", "value", "has_prior",
)


def compare(got: dict, want: dict, what: str):
    expect(set(got) == set(want), f"{what}: parameters {sorted(got)} instead of {sorted(want)}")
    for k, w in want.items():
        g = got[k]
        expect(type(g) is type(w), f"{what}: {k} is a {type(g).__name__}, not a {type(w).__name__}")
        for a in ATTRS:
            if hasattr(w, a):
                x, y = getattr(g, a), getattr(w, a)
                expect(
                    spaces.same(x, y)
                    if not isinstance(y, list | tuple)
                    else len(x) == len(y) and all(spaces.same(p, q) for p, q in zip(x, y)),
                    f"{what}: {k}.{a} is {x!r}, not {y!r}",
                )
        expect(g == w, f"{what}: {k} {g} differs from {w}")


def load(case, ctx):
    import yaml
    from neps.search_spaces.search_space import pipeline_space_from_yaml

    f = Path(ctx.scratch()) / "space.yaml"
    f.write_text(case["text"])
    arg = {"str": str(f), "path": f}.get(case["via"])
    return pipeline_space_from_yaml(arg if arg is not None else yaml.safe_load(case["text"]))


def written(case, ctx):
    from neps.search_spaces import SearchSpace

    want = spaces.build_params(case["spec"])
    with sut("pipeline_space_from_yaml"):
        got = load(case, ctx)
    compare(got, want, "yaml")
    seed_everything(case["seed"])
    a = [spaces.values_of(SearchSpace(**want).sample(ignore_fidelity=False)) for _ in range(3)]
    seed_everything(case["seed"])
    with sut("sampling the space of the file"):
        b = [spaces.values_of(SearchSpace(**got).sample(ignore_fidelity=False)) for _ in range(3)]
    expect(a == b, f"the space of the file samples {b}, the one in Python {a}")
    if re.search(r": [-+.\d]+[eE]", case["text"]):
        ctx.label("scientific")
    if any(k != "const" for k, _ in case["spec"].values()):
        ctx.nontrivial()


# ---------------------------------------------------------------- mistakes

MISTAKES = [
    "unknown key", "no upper", "no bounds", "bounds swapped", "equal bounds", "default outside",
    "unknown type", "choices no list", "flag no bool", "word bound", "null", "list",
    "log of nothing", "default no choice", "wrong type", "no mapping", "int of a fraction",
    "missing file", "no choices", "word default", "bad confidence", "broken yaml",
]


@st.composite
def mistakes(draw):
    kind = draw(st.sampled_from(MISTAKES))
    good = draw(documents(max_size=2, fidelity="never"))
    lines = good["text"].rstrip("\n").split("\n")
    if lines[0] == "pipeline_space:":
        lines = [ln[2:] for ln in lines[1:]]
    lo = draw(st.integers(-50, 50))
    up = lo + draw(st.integers(1, 50))
    fl = draw(st.booleans())
    a, b = (f"{lo}.5", f"{up}.5") if fl else (str(lo), str(up))
    out = f"{up + 3}.0" if fl else str(up + 3)
    flag = draw(st.sampled_from(["log", "is_fidelity"]))
    bad = {
        "unknown key": ["  lower: " + a, "  upper: " + b, "  " + draw(st.sampled_from(["fidelity", "uper", "Log", "choice"])) + ": true"],
        "no upper": ["  lower: " + a],
        "no bounds": ["  log: true"],
        "bounds swapped": ["  lower: " + b, "  upper: " + a],
        "equal bounds": ["  lower: " + a, "  upper: " + a],
        "default outside": ["  lower: " + a, "  upper: " + b, "  default: " + out],
        "unknown type": ["  type: " + draw(st.sampled_from(["numerical", "flaot", "ordinal"])), "  lower: " + a, "  upper: " + b],
        "choices no list": ["  choices: " + draw(st.sampled_from(["adam", "3", "{a: 1}"]))],
        "flag no bool": ["  lower: 1", "  upper: 3", f"  {flag}: " + draw(st.sampled_from(["truee", "falsee", "maybe"]))],
        "word bound": ["  lower: small", "  upper: " + b],
        "null": None,
        "list": ["  - 1", "  - 2"],
        "log of nothing": ["  lower: " + draw(st.sampled_from(["0", "-3"])), "  upper: 5", "  log: true"],
        "default no choice": ["  choices: [a, b]", "  default: " + draw(st.sampled_from(["c", "3", "A"]))],
        "wrong type": ["  type: " + draw(st.sampled_from(["int", "float"])), "  choices: [1, 2]"],
        "no choices": ["  type: cat", "  lower: 1", "  upper: 3"],
        "int of a fraction": ["  type: int", "  lower: " + draw(st.sampled_from(["1.5", "15e-1", "1.0"])), "  upper: " + draw(st.sampled_from(["1e3", "7"]))],
        "word default": ["  lower: " + a, "  upper: " + b, "  default: word"],
        "bad confidence": ["  lower: " + a, "  upper: " + b, "  default: " + a, "  default_confidence: " + draw(st.sampled_from(["strong", "High", "mid"]))],
    }.get(kind)
    if kind == "int of a fraction" and bad[1].endswith(("1.0", "15e-1")) and bad[2].endswith("1e3"):
        bad[1] = "  lower: 1.5"
    if kind == "no mapping":
        text = draw(st.sampled_from(["- a\n- b\n", "just words\n", "3\n", ""]))
    elif kind == "broken yaml":
        text = "\n".join(lines) + "\nwrong: [1, 2\nother: }\n"
    elif kind == "missing file":
        text = None
    else:
        mine = ["wrong:" + ("" if bad else " null")] + (bad or [])
        text = "\n".join(lines + mine if draw(st.booleans()) else mine + lines) + "\n"
    return {"kind": kind, "text": text}


def refused(case, ctx):
    from neps.search_spaces.search_space import pipeline_space_from_yaml
    from neps.search_spaces.yaml_search_space_utils import SearchSpaceFromYamlFileError

    f = Path(ctx.scratch()) / "wrong.yaml"
    if case["text"] is not None:
        f.write_text(case["text"])
    try:
        got = pipeline_space_from_yaml(str(f))
    except SearchSpaceFromYamlFileError:
        ctx.label(case["kind"])
        ctx.nontrivial()
        return
    except Exception as e:
        expect(False, f"{case['kind']}: {type(e).__name__}: {e} instead of SearchSpaceFromYamlFileError")
    expect(False, f"{case['kind']}: accepted as {got}")


# ---------------------------------------------------------------- ConfigSpace


@st.composite
def cs_cases(draw):
    spec = draw(spaces.space_specs(fidelity="never"))
    ordinal = [k for k, (kind, _) in spec.items() if kind == "cat" and draw(st.booleans())]
    return {
        "spec": spec,
        "ordinal": ordinal,
        "extra": draw(st.sampled_from(["", "", "", "condition", "forbidden", "normal"])),
        "seed": draw(st.integers(0, 2**31)),
    }


def to_configspace(spec, ordinal=()):
    import ConfigSpace as CS

    cs = CS.ConfigurationSpace()
    for k, (kind, d) in spec.items():
        if kind == "const":
            # ConfigSpace knows no boolean constants
            hp = CS.Constant(k, int(d["value"]) if isinstance(d["value"], bool) else d["value"])
        elif kind == "cat":
            if k in ordinal:
                hp = CS.OrdinalHyperparameter(k, d["choices"], default_value=d.get("default"))
            else:
                hp = CS.CategoricalHyperparameter(k, d["choices"], default_value=d.get("default"))
        else:
            c = CS.UniformIntegerHyperparameter if kind == "int" else CS.UniformFloatHyperparameter
            hp = c(k, d["lower"], d["upper"], log=d["log"], default_value=d.get("default"))
        cs.add_hyperparameter(hp)
    return cs


def configspace(case, ctx):
    import ConfigSpace as CS
    from neps.search_spaces import SearchSpace
    from neps.search_spaces.search_space import pipeline_space_from_configspace

    try:
        cs = to_configspace(case["spec"], case["ordinal"])
    except Exception:
        return  # not a space ConfigSpace can express
    if case["extra"]:
        x = CS.CategoricalHyperparameter("_p", ["u", "v"])
        cs.add_hyperparameter(x)
        if case["extra"] == "condition":
            y = CS.UniformFloatHyperparameter("_q", 0.0, 1.0)
            cs.add_hyperparameter(y)
            cs.add_condition(CS.EqualsCondition(y, x, "u"))
        elif case["extra"] == "forbidden":
            cs.add_forbidden_clause(CS.ForbiddenEqualsClause(x, "v"))
        else:
            cs.add_hyperparameter(CS.NormalFloatHyperparameter("_q", 0.0, 1.0))
        try:
            got = pipeline_space_from_configspace(cs)
        except (NotImplementedError, ValueError):
            ctx.label(case["extra"])
            ctx.nontrivial()
            return
        expect(False, f"a ConfigSpace with a {case['extra']} is taken as {got}")
    for k, (kind, d) in case["spec"].items():
        if kind in ("float", "int") and not d["lower"] <= cs[k].default_value <= d["upper"]:
            return  # ConfigSpace rounded the default out of its own range
    with sut("pipeline_space_from_configspace"):
        got = pipeline_space_from_configspace(cs)
        space = SearchSpace(**got)
    spec = {
        k: (kind, {"value": int(d["value"])} if kind == "const" and isinstance(d["value"], bool) else d)
        for k, (kind, d) in case["spec"].items()
    }
    want = spaces.build_params(
        {
            # ConfigSpace rounds a default to ten digits
            k: (kind, {**{a: b for a, b in d.items() if a != "default_confidence"}, "default": cs[k].default_value}
                if kind != "const" else d)
            for k, (kind, d) in spec.items()
        }
    )
    for k, (kind, d) in spec.items():
        if kind != "const" and "default" not in d:
            ctx.label("default of ConfigSpace")
    compare(got, want, "ConfigSpace")
    seed_everything(case["seed"])
    for _ in range(4):
        with sut("sampling"):
            cfg = spaces.values_of(space.sample())
        spaces.expect_in_space(spec, cfg, "ConfigSpace sample")
        try:
            CS.Configuration(cs, values=cfg)
        except Exception as e:
            expect(False, f"{cfg} is not a configuration of the ConfigSpace: {e}")
    ctx.nontrivial()


# ---------------------------------------------------------------- through neps.run


@st.composite
def run_cases(draw):
    doc = draw(documents(max_size=4, fidelity="never", prior="never"))
    spec = doc["spec"]
    part = [k for k in spec if draw(st.booleans())]
    return {**doc, "cs": part, "form": draw(st.sampled_from(["yaml", "mixed", "configspace"])),
            "at": draw(st.integers(0, 4)), "cls": draw(st.booleans())}


def run_with(ctx, space, seed, tag, cls):
    import neps
    from neps.optimizers.random_search.optimizer import RandomSearch

    class Mine(RandomSearch):
        """A searcher class of the user; neps.run instantiates it with the space."""

        def __init__(self, pipeline_space, **kw):
            super().__init__(pipeline_space=pipeline_space, **kw)

    root = Path(ctx.scratch()) / tag
    seen = []

    def f(**config):
        seen.append(dict(config))
        return float(len(seen))

    seed_everything(seed)
    neps.run(
        run_pipeline=f, pipeline_space=space, root_directory=root, max_evaluations_total=2,
        searcher=Mine if cls else "random_search", use_priors=False,
    )
    return seen


def through_run(case, ctx):
    spec = case["spec"]
    if case["form"] == "yaml":
        f = Path(ctx.scratch()) / "s.yaml"
        f.write_text(case["text"])
        with sut("neps.run"):
            a = run_with(ctx, spaces.build_params(spec), case["seed"], "a", False)
            b = run_with(ctx, str(f) if case["via"] == "str" else f, case["seed"], "b", case["cls"])
        expect(a == b, f"the file evaluates {b}, the Python space {a}")
        got = b
    else:
        # a configuration space for some of the parameters, the rest in Python
        part = {k: spec[k] for k in spec if k in case["cs"]}
        if case["form"] == "configspace":
            part = dict(spec)
        part = {k: v for k, v in part.items() if not (v[0] == "const" and isinstance(v[1]["value"], bool))}
        try:
            cs = to_configspace(part)
        except Exception:
            return
        rest = spaces.build_params({k: v for k, v in spec.items() if k not in part})
        space = cs
        if case["form"] == "mixed" or rest:
            items = list(rest.items())
            items.insert(min(case["at"], len(items)), ("cs", cs))
            space = dict(items)
        with sut("neps.run"):
            got = run_with(ctx, space, case["seed"], "c", case["cls"])
    expect(len(got) == 2, f"{len(got)} evaluations instead of 2")
    for cfg in got:
        spaces.expect_in_space(spec, cfg, f"evaluated ({case['form']})")
    ctx.label(case["form"])
    ctx.nontrivial()


# ------------------------------------------------------------------------ parameters by kind


@st.composite
def view_cases(draw):
    return {"spec": draw(spaces.space_specs(max_size=6)), "seed": draw(st.integers(0, 10**6)),
            "how": draw(st.sampled_from(["new", "clone", "sample", "from_dict"]))}


def views(case, ctx):
    """Every parameter of a space is listed once under its kind, and nothing else is."""
    spec = case["spec"]
    fid = spaces.fidelity_name(spec)
    seed_everything(case["seed"])
    with sut("building the space"):
        space = spaces.build(spec)
        config = space.sample(ignore_fidelity=False)
        values = spaces.values_of(config)
        if case["how"] == "clone":
            space = space.clone()
        elif case["how"] == "sample":
            space = config
        elif case["how"] == "from_dict":
            space = space.from_dict(values)
        views = {n: dict(getattr(space, n)) for n in
                 ("hyperparameters", "numerical", "categoricals", "constants", "fidelities", "graphs")}
        one = (space.fidelity_name, space.fidelity, space.has_fidelity, space.has_prior)
        mapping = (list(space), len(space), list(space.keys()), fid in space if fid else True)
    names = set(spec)
    kinds = {k: "fidelities" if k == fid else
             {"float": "numerical", "int": "numerical", "cat": "categoricals", "const": "constants"}[v[0]]
             for k, v in spec.items()}
    expect(set(views["hyperparameters"]) == names, f"{sorted(views['hyperparameters'])} of {sorted(spec)}")
    for n in ("numerical", "categoricals", "constants", "fidelities", "graphs"):
        want = {k for k in names if kinds[k] == n}
        expect(set(views[n]) == want, f"{n}: {sorted(views[n])}, expected {sorted(want)}")
        for k, v in views[n].items():
            if n == "constants":
                expect(spaces.same(v, spec[k][1]["value"]), f"constant {k} is {v}")
            else:
                expect(v is views["hyperparameters"][k], f"{n}[{k}] is another object")
    expect(sorted(mapping[0]) == sorted(spec) and mapping[1] == len(spec)
           and list(mapping[2]) == list(mapping[0]) and mapping[3], f"{mapping} of {sorted(spec)}")
    prior = any(v[0] != "const" and v[1].get("default") is not None for v in spec.values())
    expect(one[0] == fid and one[2] == (fid is not None) and one[3] == prior,
           f"fidelity name, has_fidelity, has_prior: {one[0], one[2], one[3]} of {spec}")
    expect(one[1] is (views["hyperparameters"][fid] if fid else None), "the fidelity is another object")

    # normalized values of a configuration
    for ignore in (False, True):
        with sut("get_normalized_hp_categories"):
            got = config.get_normalized_hp_categories(ignore_fidelity=ignore)
        for n, ks in (("continuous", ("float", "int")), ("categorical", ("cat",))):
            cols = [k for k in sorted(spec) if spec[k][0] in ks and not (ignore and k == fid)]
            want = [config[k].value_to_normalized(values[k]) for k in cols]
            expect(len(got[n]) == len(want) and all(abs(a - b) < 1e-6 for a, b in zip(got[n], want)),
                   f"{n} (ignore_fidelity={ignore}): {got[n]} of {cols}, expected {want}")
        expect(not got["graphs"], "graphs")
    if fid:
        with sut("set_to_max_fidelity"):
            config.set_to_max_fidelity()
        now = spaces.values_of(config)
        expect(all(spaces.same(now[k], spec[k][1]["upper"] if k == fid else values[k]) for k in spec),
               f"{values} at the highest fidelity is {now}")
    ctx.nontrivial(len(set(kinds.values())) > 1)
    ctx.label(case["how"], *set(kinds.values()))


FACETS = [
    Facet("views", lambda: view_cases(), views, quick=400, thorough=8000,
          rule="parameters of several kinds"),
    Facet("yaml", lambda: documents(), written, quick=2500, thorough=40000,
          rule="the file has a parameter that is not a constant and was read and compared"),
    Facet("refused", lambda: mistakes(), refused, quick=800, thorough=10000,
          rule="a file with one mistake was refused with SearchSpaceFromYamlFileError"),
    Facet("configspace", lambda: cs_cases(), configspace, quick=1200, thorough=15000,
          rule="the ConfigSpace could be built and its conversion (or refusal) was compared"),
    Facet("run", lambda: run_cases(), through_run, quick=120, thorough=1500,
          rule="neps.run evaluated the space written in another notation"),
]
