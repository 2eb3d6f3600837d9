"""Core of the property checks: facets, violations, the Hypothesis driver and shrinking.

A property check is a list of *facets*.  Each facet is a generator (a Hypothesis strategy
that yields a plain-data case) and a deciding function that runs the real code on the case
and compares it with an explicit oracle.
"""

from __future__ import annotations

import base64
import contextlib
import hashlib
import json
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Callable

HOME = Path(os.environ.get("VERIF_HOME", Path(__file__).resolve().parent.parent))
SRC = Path(os.environ.get("NEPS_SRC", "/repo")).resolve()
SHRINK_S = float(os.environ.get("VERIF_SHRINK_S", "45"))


class Violation(AssertionError):
    """The property does not hold for this case."""

    def __init__(self, msg: str, key: str | None = None):
        super().__init__(msg)
        self.key = key


class HarnessError(Exception):
    """The harness, not the code under test, is at fault."""


class _StopShrink(KeyboardInterrupt):
    pass


class _CaseTimeout(BaseException):
    pass


def expect(cond: Any, msg: str | Callable[[], str] = "", key: str | None = None) -> None:
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key=key)


@contextlib.contextmanager
def sut(what: str, key: str | None = None):
    """Code under test runs here; an exception out of it violates the property."""
    try:
        yield
    except (Violation, HarnessError):
        raise
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        loc = ""
        for fr in reversed(tb):
            if str(SRC) in fr.filename:
                loc = f" at {Path(fr.filename).name}:{fr.name}"
                break
        if not loc and isinstance(e, (ImportError, NameError)):
            raise HarnessError(f"{type(e).__name__}: {e}") from e
        raise Violation(
            f"{what}: unexpected {type(e).__name__}: {str(e)[:300]}{loc}", key=key
        ) from e


@dataclass
class Facet:
    name: str
    strategy: Callable[[], Any]
    test: Callable[[Any, "Ctx"], Any]
    quick: int = 200
    thorough: int = 5000
    shards: int = 2
    rule: str = ""
    cpu_limit: float = 90.0
    fixed: list[Any] = field(default_factory=list)
    """Cases that are always run first (saved regressions, boundary shapes)."""
    quick_s: float = 60.0
    thorough_s: float = 600.0


class Ctx:
    """Per-case context given to the deciding function."""

    def __init__(self, tier: str):
        self.tier = tier
        self.labels: list[str] = []
        self.is_nontrivial = False
        self._dirs: list[str] = []

    def label(self, *names: str) -> None:
        self.labels.extend(names)

    def nontrivial(self, cond: Any = True) -> None:
        if cond:
            self.is_nontrivial = True

    def scratch(self) -> Path:
        d = tempfile.mkdtemp(prefix="case-", dir=scratch_root())
        self._dirs.append(d)
        return Path(d)

    def close(self) -> None:
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)


_SCRATCH: str | None = None


def scratch_root() -> str:
    assert _SCRATCH is not None
    return _SCRATCH


def set_scratch_root(p: str) -> None:
    global _SCRATCH
    _SCRATCH = p


def seed_everything(seed: int) -> None:
    import numpy as np
    import torch

    random.seed(seed)
    np.random.seed(seed % (2**32))
    torch.manual_seed(seed)


@dataclass
class Result:
    facet: str
    evaluations: int = 0
    skipped: int = 0
    nontrivial: set = field(default_factory=set)
    labels: Counter = field(default_factory=Counter)
    samples: list = field(default_factory=list)
    known: Counter = field(default_factory=Counter)
    failure: dict | None = None
    error: str | None = None
    wall: float = 0.0


def case_repr(case: Any, limit: int = 1500) -> str:
    r = repr(case)
    return r if len(r) <= limit else r[:limit] + f"...({len(r)} chars)"


def case_hash(case: Any) -> str:
    return hashlib.sha1(repr(case).encode()).hexdigest()[:16]


def _through_neps(e: BaseException) -> bool:
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        for fr in traceback.extract_tb(e.__traceback__):
            if str(SRC / "neps") in fr.filename:
                return True
        e = e.__cause__ or e.__context__
    return False


class Driver:
    """Runs the cases of one facet shard in this process."""

    def __init__(self, facet: Facet, tier: str, known: set[str], budget_s: float):
        self.facet = facet
        self.tier = tier
        self.known = known
        self.res = Result(facet.name)
        self.t0 = time.monotonic()
        self.budget_s = budget_s
        self.best: tuple[int, Any, str] | None = None
        self.first_fail: float | None = None

    def run_one(self, case: Any) -> None:
        """Raises Violation (unlisted) if the property fails on this case."""
        ctx = Ctx(self.tier)

        def on_prof(signum, frame):
            raise _CaseTimeout()

        old = signal.signal(signal.SIGPROF, on_prof)
        signal.setitimer(signal.ITIMER_PROF, self.facet.cpu_limit)
        try:
            self.facet.test(case, ctx)
        except _CaseTimeout:
            raise Violation(
                f"no termination within {self.facet.cpu_limit} CPU-seconds"
            ) from None
        except Violation as v:
            if v.key is not None and v.key in self.known:
                self.res.known[v.key] += 1
                return
            raise
        except HarnessError:
            raise
        except (ImportError, NameError) as e:
            if _through_neps(e):
                raise Violation(f"unexpected {type(e).__name__} in the code: {e}") from e
            raise HarnessError(f"{type(e).__name__}: {e}\n{traceback.format_exc()}") from e
        except Exception as e:  # noqa: BLE001
            where = "in the code under test" if _through_neps(e) else "on its output"
            raise Violation(
                f"unexpected {type(e).__name__} {where}: {str(e)[:300]}"
            ) from e
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)
            ctx.close()
            self.res.evaluations += 1
            for lb in ctx.labels:
                self.res.labels[lb] += 1
            if ctx.is_nontrivial:
                h = case_hash(case)
                if h not in self.res.nontrivial:
                    self.res.nontrivial.add(h)
                    if len(self.res.samples) < 3:
                        self.res.samples.append(case_repr(case, 700))

    def wrapped(self, case: Any) -> None:
        now = time.monotonic()
        if self.first_fail is not None and now - self.first_fail > SHRINK_S:
            raise _StopShrink()
        if self.first_fail is None and now - self.t0 > self.budget_s:
            self.res.skipped += 1
            return
        try:
            self.run_one(case)
        except Violation as v:
            if self.first_fail is None:
                self.first_fail = now
            size = len(repr(case))
            if self.best is None or size <= self.best[0]:
                self.best = (size, case, f"{v}\n{traceback.format_exc()}")
            raise

    def drive(self, seed: int, n: int, fixed: bool) -> Result:
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        try:
            if fixed:
                for c in self.facet.fixed:
                    try:
                        self.run_one(c)
                    except Violation as v:
                        self.best = (0, c, f"{v}\n{traceback.format_exc()}")
                        raise
            if n > 0:
                f = given(self.facet.strategy())(lambda case: self.wrapped(case))
                f = settings(
                    max_examples=n,
                    deadline=None,
                    database=None,
                    suppress_health_check=list(HealthCheck),
                    phases=[Phase.generate, Phase.shrink],
                    report_multiple_bugs=False,
                    print_blob=False,
                    verbosity=hypothesis.Verbosity.quiet,
                )(f)
                hypothesis.seed(seed)(f)()
        except HarnessError as e:
            self.res.error = str(e)
        except BaseException as e:  # noqa: BLE001
            if self.best is None:
                self.res.error = f"{type(e).__name__}: {e}\n{traceback.format_exc()}"
        if self.best is not None and self.res.error is None:
            self.res.failure = {
                "facet": self.facet.name,
                "message": self.best[2],
                "case": case_repr(self.best[1], 20000),
                "pickle": base64.b64encode(pickle.dumps(self.best[1])).decode(),
            }
        self.res.wall = time.monotonic() - self.t0
        return self.res
