"""A reference model of the multi-fidelity schedules, written from their documentation.

Trials are named `<config>_<rung>`.  Rung `K` is the maximal fidelity, each rung below is
`eta` times cheaper.  The model says what the next proposal may be for any history.
"""

from __future__ import annotations

import math
from fractions import Fraction

PENDING = object()


def n_rungs(lower, upper, eta) -> int:
    """K, the largest number with lower * eta**K <= upper (up to float rounding)."""
    k = 0
    hi = Fraction(upper) * (1 + Fraction(1, 10**11))
    while Fraction(lower) * eta ** (k + 1) <= hi:
        k += 1
    return k


def fidelity(lower, upper, eta, K, r, is_int):
    v = Fraction(upper) / eta ** (K - r)
    return max(math.floor(v), lower) if is_int else max(float(v), lower)


def bracket_size(K, eta, s) -> int:
    """Configurations in the lowest rung (s) of bracket s of hyperband."""
    return (K + 1) // (K - s + 1) * eta ** (K - s)


class Model:
    """`algo`: sync (brackets of successive halving), hyperband, async or async_hyperband."""

    def __init__(self, algo, lower, upper, eta, is_int, *, early=0, default_at_target=False):
        self.algo, self.eta, self.early = algo, eta, early
        self.K = n_rungs(lower, upper, eta)
        self.fid = [
            fidelity(lower, upper, eta, self.K, r, is_int) for r in range(self.K + 1)
        ]
        self.default_at_target = default_at_target
        self.configs: dict[int, dict[int, object]] = {}  # config -> rung -> loss or PENDING
        self.n_promotions = 0

    # -- history -----------------------------------------------------------------
    def add(self, c: int, r: int) -> None:
        if r - 1 in self.configs.get(c, {}):
            self.n_promotions += 1
        self.configs.setdefault(c, {})[r] = PENDING

    def complete(self, c: int, r: int, loss: float) -> None:
        assert self.configs[c][r] is PENDING
        self.configs[c][r] = math.inf if loss != loss else loss

    # -- what may come next ------------------------------------------------------
    def _best(self, cs, r, k):
        """Those that are among the k best at rung r, ties included."""
        if k <= 0:
            return set()
        losses = sorted(self.configs[c][r] for c in cs)
        return {c for c in cs if self.configs[c][r] <= losses[k - 1]}

    def brackets(self):
        """(s, ids) for all brackets up to the one the next new configuration belongs to."""
        start = 1 if self.default_at_target else 0
        s = 0 if self.algo == "hyperband" else self.early
        while True:
            n = bracket_size(self.K, self.eta, s)
            yield s, range(start, start + n)
            start += n
            if start > len(self.configs):
                return
            if self.algo == "hyperband":
                s = (s + 1) % (self.K + 1)

    def expected(self) -> list[tuple]:
        """Allowed proposals: ("promote", configs, from rung) or ("new", config, rung)."""
        new = len(self.configs)
        if self.default_at_target and new == 0:
            return [("new", 0, self.K)]
        if self.algo in ("sync", "hyperband"):
            s = None
            for s, ids in self.brackets():
                if ids.stop > new:
                    break
                for r in range(self.K - 1, s - 1, -1):
                    n = len(ids) // self.eta ** (r - s)
                    reached = [c for c in ids if r in self.configs[c]]
                    if len(reached) < n:
                        continue
                    if any(self.configs[c][r] is PENDING for c in reached):
                        break
                    left = [c for c in reached if r + 1 not in self.configs[c]]
                    k = n // self.eta - (len(reached) - len(left))
                    if k > 0:
                        return [("promote", self._best(left, r, k), r)]
            return [("new", new, s)]

        found = None
        lowest = self.early if self.algo == "async" else 0
        for r in range(self.K - 1, lowest - 1, -1):
            waiting = [
                c for c, rs in self.configs.items() if max(rs) == r and rs[r] is not PENDING
            ]
            best = self._best(waiting, r, len(waiting) // self.eta)
            if best:
                found = ("promote", best, r)
                break
        if self.algo == "async":
            return [found or ("new", new, self.early)]
        # the rung of a new configuration is chosen at random
        if found is None:
            return [("new", new, s) for s in range(self.K + 1)]
        return [found] + [("new", new, s) for s in range(found[2] + 1, self.K + 1)]
