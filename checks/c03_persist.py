"""C03: what is written to the shared directory is what any later process reads back."""

from __future__ import annotations

import copy
import math
from collections import OrderedDict
from dataclasses import dataclass
from enum import Enum, IntEnum
from types import MappingProxyType

from hypothesis import strategies as st

from vlib import records as R
from vlib.core import Facet, expect, seed_everything, sut

# ------------------------------------------------------------------ values users put in a result


class Color(Enum):
    RED = "red"
    ONE = 1


class Level(IntEnum):
    LOW = 3


@dataclass
class Stats:
    mean: object
    n: int = 2


class Custom:
    def __init__(self, v):
        self.v = v

    def serialize(self):
        return {"custom": self.v}


f64 = st.floats(-1e6, 1e6)


def leaf():
    return st.one_of(
        st.tuples(st.just("plain"), R.plain(3)),
        st.tuples(st.just("np"), st.sampled_from(["float64", "float32", "int64", "bool_"]),
                  st.integers(-100, 100)),
        st.tuples(st.just("nparr"), st.sampled_from(["float64", "int32", "bool_"]),
                  st.sampled_from([(), (0,), (1,), (3,), (2, 2)])),
        st.tuples(st.just("torch"), st.sampled_from(["float64", "float32", "int64", "bool"]),
                  st.sampled_from([(), (0,), (1,), (3,), (2, 2)]), st.booleans()),
        st.tuples(st.just("npstr"), st.sampled_from(["x", "yes", "é"])),
        st.tuples(st.just("enum"), st.sampled_from(["RED", "ONE", "LOW"])),
        st.tuples(st.just("exc"), R.texts()),
    )


def rich():
    return st.recursive(
        leaf(),
        lambda ch: st.one_of(
            st.tuples(st.just("tuple"), st.lists(ch, max_size=3)),
            st.tuples(st.just("list"), st.lists(ch, max_size=3)),
            st.tuples(st.just("dict"), st.dictionaries(R.texts(), ch, max_size=3)),
            st.tuples(st.just("odict"), st.dictionaries(R.texts(), ch, max_size=2)),
            st.tuples(st.just("proxy"), st.dictionaries(R.texts(), ch, max_size=2)),
            st.tuples(st.just("gen"), st.lists(ch, max_size=2)),
            st.tuples(st.just("dc"), ch),
            st.tuples(st.just("custom"), ch),
            st.tuples(st.just("intkey"), st.dictionaries(st.integers(-3, 9), ch, max_size=2)),
        ),
        max_leaves=6,
    )


def _numbers(shape, base=1):
    n = math.prod(shape)
    vals = [(-1) ** i * (i + base) * 0.5 for i in range(n)]
    return vals


def make(s):
    """The object a user would return."""
    import numpy as np
    import torch

    k = s[0]
    if k == "plain":
        return copy.deepcopy(s[1])
    if k == "np":
        return getattr(np, s[1])(s[2])
    if k == "npstr":
        return np.str_(s[1])
    if k == "nparr":
        return np.array(_numbers(s[2]), dtype=s[1]).reshape(s[2])
    if k == "torch":
        t = torch.tensor(_numbers(s[2]), dtype=getattr(torch, s[1])).reshape(s[2])
        if s[3] and t.is_floating_point():
            t = t.requires_grad_() * 2  # not a leaf
        return t
    if k == "enum":
        return {"RED": Color.RED, "ONE": Color.ONE, "LOW": Level.LOW}[s[1]]
    if k == "exc":
        return ValueError(s[1])
    if k == "tuple":
        return tuple(map(make, s[1]))
    if k in ("list", "gen"):
        return [make(x) for x in s[1]]
    if k == "dict" or k == "intkey":
        return {a: make(b) for a, b in s[1].items()}
    if k == "odict":
        return OrderedDict((a, make(b)) for a, b in s[1].items())
    if k == "proxy":
        return MappingProxyType({a: make(b) for a, b in s[1].items()})
    if k == "dc":
        return Stats(make(s[1]))
    return Custom(make(s[1]))


def plain_of(s):
    """What of it is stored."""
    k = s[0]
    if k == "plain":
        return s[1]
    if k == "np":
        return {"float64": float, "float32": float, "int64": int, "bool_": bool}[s[1]](s[2])
    if k == "npstr":
        return s[1]
    if k in ("nparr", "torch"):
        vals = _numbers(s[2])
        if s[1].startswith("int"):
            vals = [int(v) for v in vals]
        elif s[1].startswith("bool"):
            vals = [bool(v) for v in vals]
        elif k == "torch" and s[3]:
            vals = [v * 2 for v in vals]

        def shape(vs, dims):
            if not dims:
                return vs[0]
            step = len(vs) // dims[0] if dims[0] else 0
            return [shape(vs[i * step:(i + 1) * step], dims[1:]) for i in range(dims[0])]

        return shape(vals, s[2])
    if k == "enum":
        return {"RED": "red", "ONE": 1, "LOW": 3}[s[1]]
    if k == "exc":
        return s[1]
    if k in ("tuple", "list", "gen"):
        return [plain_of(x) for x in s[1]]
    if k in ("dict", "odict", "proxy", "intkey"):
        return {a: plain_of(b) for a, b in s[1].items()}
    if k == "dc":
        return {"mean": plain_of(s[1]), "n": 2}
    return {"custom": plain_of(s[1])}


def kinds_in(s, out=None):
    out = set() if out is None else out
    out.add(s[0])
    if s[0] in ("tuple", "list", "gen"):
        for x in s[1]:
            kinds_in(x, out)
    elif s[0] in ("dict", "odict", "proxy", "intkey"):
        for x in s[1].values():
            kinds_in(x, out)
    elif s[0] in ("dc", "custom"):
        kinds_in(s[1], out)
    return out


def value_cases():
    return st.fixed_dictionaries({
        "value": st.dictionaries(R.texts(), rich(), min_size=1, max_size=3),
        "old": st.dictionaries(R.texts(), R.plain(2), max_size=2),
        "sort": st.booleans(),
        "bad": st.booleans(),
    })


def values(case, ctx):
    """A dictionary written to a file and read back; a failing write leaves the file as it was."""
    from neps.utils.files import deserialize, serialize

    d = ctx.scratch()
    path = d / "f.yaml"
    with sut("serialize"):
        serialize(copy.deepcopy(case["old"]), path)
        serialize({k: make(v) for k, v in case["value"].items()}, path, sort_keys=case["sort"])
        got = deserialize(path)
    want = {k: plain_of(v) for k, v in case["value"].items()}
    expect(R.same(got, want), lambda: f"stored {R.diff(want, got)}")
    expect([p.name for p in d.iterdir()] == ["f.yaml"], "left other files behind")
    if case["bad"]:
        before = path.read_bytes()
        try:
            serialize({"a": 1, "b": object()}, path)
            ok = False
        except TypeError:
            ok = True
        expect(ok, "an object that cannot be stored raised no TypeError")
        expect(path.read_bytes() == before, "a failed write changed the file")
        expect([p.name for p in d.iterdir()] == ["f.yaml"], "a failed write left other files behind")
    ks = set().union(*(kinds_in(v) for v in case["value"].values()))
    ctx.nontrivial(bool(ks - {"plain", "list", "dict"}))
    ctx.label(*ks)


# ------------------------------------------------------------------ trials


class Odd(Exception):
    """An error with its own arguments, that cannot be copied or pickled."""

    def __init__(self, a, *, b):
        super().__init__(f"{a}/{b}")
        self.f = lambda: b


ERRS = ["value", "odd", "key", "os", "unicode", "assert", "empty", "stop"]


def make_err(kind, msg):
    return {
        "value": lambda: ValueError(msg), "odd": lambda: Odd(msg, b=1), "key": lambda: KeyError(msg),
        "os": lambda: OSError(2, msg), "assert": lambda: AssertionError(msg),
        "unicode": lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, msg),
        "empty": lambda: RuntimeError(), "stop": lambda: StopIteration(msg),
    }[kind]()


@st.composite
def trial_cases(draw):
    return {
        "trials": draw(st.lists(R.trials(), min_size=1, max_size=3)),
        "extra": draw(st.dictionaries(st.sampled_from(["info_dict", "k", "yes"]), rich(), max_size=2)),
        "err": draw(st.sampled_from(ERRS)),
    }


def trial_files(case, ctx):
    """The stages of a trial written one after the other over the same files."""
    from neps.state.filebased import ReaderWriterTrial
    from neps.state.trial import Trial

    d = ctx.scratch()
    rw = ReaderWriterTrial()
    reported = False
    for i, td in enumerate(case["trials"]):
        if reported and td["stage"] != "reported":
            continue
        t = R.build_trial(td, str(d))
        want = R.plain_trial(t)
        if td["stage"] == "reported":
            reported = True
            # the user's own objects in the result and as error
            t.report.extra = {k: make(v) for k, v in case["extra"].items()}
            want["report"]["extra"] = {k: plain_of(v) for k, v in case["extra"].items()}
            if td["report"]["err"] is not None:
                t.report.err = make_err(case["err"], td["report"]["err"])
                want["report"]["err"] = str(t.report.err)
        with sut("writing a trial"):
            rw.write(t, d)
            back = rw.read(d)
        got = R.plain_trial(back)
        expect(R.same(got, want), lambda: f"trial: {R.diff(want, got)}")
        expect(isinstance(back, Trial) and isinstance(back.state, Trial.State), "types of a trial")
        if back.report is not None and back.report.err is not None:
            expect(isinstance(back.report.err, Exception), "the error is not an exception")
        # reading is idempotent and writing what was read changes nothing
        with sut("writing again"):
            rw.write(back, d)
            again = rw.read(d)
        expect(R.same(R.plain_trial(again), want), "writing what was read changed it")
        if td["previous"]:
            p = d / "previous_trial_id.txt"
            expect(p.exists(),
                   "the previous trial is not recorded")
        expect(not [p for p in d.iterdir() if p.name.endswith(".tmp")], "temporary files left")
        ctx.label(td["stage"])
    ctx.nontrivial(reported)


# ------------------------------------------------------------------ errors and optimizer state


@st.composite
def shared_cases(draw):
    errs = st.lists(
        st.tuples(R.texts(), R.texts(), R.texts(), R.texts(), R.maybe(R.texts())), max_size=4
    )
    return {
        "errs": draw(st.lists(errs, min_size=1, max_size=3)),
        "info": draw(st.dictionaries(R.texts(), rich(), max_size=3)),
        "shared": draw(st.dictionaries(R.texts(), R.plain(4), max_size=3)),
        "budget": draw(R.maybe(st.tuples(
            R.maybe(R.floats()), R.floats(), R.maybe(st.integers(0, 99)), st.integers(0, 99)))),
    }


def shared(case, ctx):
    from neps.state.err_dump import ErrDump
    from neps.state.filebased import (
        ReaderWriterErrDump,
        ReaderWriterOptimizationState,
        ReaderWriterOptimizerInfo,
    )
    from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo

    d = ctx.scratch()
    rw = ReaderWriterErrDump("all")
    other = ReaderWriterErrDump("other")
    with sut("errors"):
        other.write(ErrDump([]), d)
    for errs in case["errs"]:
        dump = ErrDump()
        for a, b, c, e, f in errs:
            dump.append(ErrDump.SerializableTrialError(trial_id=a, worker_id=b, err_type=c, err=e, tb=f))
        with sut("errors"):
            rw.write(dump, d)
            back = rw.read(d)
        got = [dict(vars(x)) for x in back.errs]
        want = [dict(vars(x)) for x in dump.errs]
        expect(R.same(got, want), lambda: f"errors {want} became {got}")
        expect(len(back) == len(errs) and bool(back) == bool(errs), "number of errors")
        last = back.latest_err_as_raisable()
        if errs:
            for part in errs[-1][:4]:
                expect(part in str(last), f"the latest error does not mention {part!r}")
        else:
            expect(last is None, "an error out of nothing")
    with sut("errors"):
        expect(len(other.read(d)) == 0, "another list of errors changed")
    b = case["budget"]
    with sut("optimizer state"):
        ReaderWriterOptimizationState().write(
            OptimizationState(
                budget=None if b is None else BudgetInfo(*b),
                shared_state=copy.deepcopy(case["shared"]),
            ), d)
        st_ = ReaderWriterOptimizationState().read(d)
        ReaderWriterOptimizerInfo().write(OptimizerInfo({k: make(v) for k, v in case["info"].items()}), d)
        info = ReaderWriterOptimizerInfo().read(d)
    want = case["shared"]
    expect(R.same(dict(st_.shared_state), want), lambda: f"state {R.diff(want, dict(st_.shared_state))}")
    got_b = None if st_.budget is None else tuple(vars(st_.budget).values())
    expect(R.same(got_b, b), f"budget {b} became {got_b}")
    want = {k: plain_of(v) for k, v in case["info"].items()}
    expect(R.same(dict(info.info), want), lambda: f"info {R.diff(want, dict(info.info))}")
    ctx.nontrivial(len(case["errs"][-1]) > 0)


# ------------------------------------------------------------------ random state


@st.composite
def seed_cases(draw):
    return {
        "seed": draw(st.integers(0, 2**32 - 1)),
        "before": draw(st.lists(st.sampled_from(DRAWS), max_size=6)),
        "other": draw(st.integers(0, 2**32 - 1)),
        "after": draw(st.lists(st.sampled_from(DRAWS), min_size=1, max_size=8)),
    }


DRAWS = ["py", "pygauss", "pyshuffle", "np", "npgauss", "npint", "torch", "torchgauss", "torchperm"]


def do(kind):
    import random

    import numpy as np
    import torch

    if kind == "py":
        return random.random()
    if kind == "pygauss":
        return random.gauss(0, 1)
    if kind == "pyshuffle":
        x = list(range(10))
        random.shuffle(x)
        return x
    if kind == "np":
        return float(np.random.rand())
    if kind == "npgauss":
        return float(np.random.randn())
    if kind == "npint":
        return int(np.random.randint(0, 2**31))
    if kind == "torch":
        return torch.rand(3).tolist()
    if kind == "torchgauss":
        return torch.randn(1).tolist()
    return torch.randperm(9).tolist()


def seeds(case, ctx):
    """A process that restores the random state from disk goes on where the writer was."""
    from neps.state.filebased import ReaderWriterSeedSnapshot
    from neps.state.seed_snapshot import SeedSnapshot

    d = ctx.scratch()
    seed_everything(case["seed"])
    for k in case["before"]:
        do(k)
    with sut("seed snapshot"):
        snap = SeedSnapshot.new_capture()
        same_now = snap == SeedSnapshot.new_capture()
        ReaderWriterSeedSnapshot.write(snap, d)
    expect(same_now, "two snapshots of one state differ")
    want = [do(k) for k in case["after"]]
    with sut("seed snapshot"):
        after = SeedSnapshot.new_capture()
        expect(after != snap, "a snapshot is equal to a later one")
    # taking a snapshot did not disturb the sequence
    seed_everything(case["seed"])
    for k in case["before"]:
        do(k)
    expect([do(k) for k in case["after"]] == want, "taking a snapshot changed the random state")
    seed_everything(case["other"])
    with sut("seed snapshot"):
        back = ReaderWriterSeedSnapshot.read(d)
        expect(back == snap, "the snapshot read back differs")
        back.set_as_global_seed_state()
    got = [do(k) for k in case["after"]]
    expect(got == want, f"{case['after']}: {want} became {got}")
    # the snapshot itself did not move
    with sut("seed snapshot"):
        snap.set_as_global_seed_state()
    expect([do(k) for k in case["after"]] == want, "the snapshot changed after it was taken")
    with sut("seed snapshot"):
        back.recapture()
        expect(back == after, "recapture is not the current state")
        ReaderWriterSeedSnapshot.write(back, d)
        expect(ReaderWriterSeedSnapshot.read(d) == after, "a second write is not read back")
    ctx.nontrivial(len(case["before"]) > 0)
    ctx.label(*case["after"])


FACETS = [
    Facet("values", value_cases, values, 1200, 30000, 2, rule="more than plain YAML values"),
    Facet("trials", trial_cases, trial_files, 500, 12000, 2, rule="a trial with a report"),
    Facet("shared", shared_cases, shared, 500, 12000, 2, rule="a non-empty list of errors"),
    Facet("seeds", seed_cases, seeds, 400, 8000, 2, rule="draws before the snapshot"),
]
