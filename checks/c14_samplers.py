"""C14: samplers fill tensors of the requested shape with values of the requested domains."""

from __future__ import annotations

import math

from hypothesis import strategies as st

from checks.c12_domains import domain_spec, make
from vlib.core import Facet, expect, sut


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["sobol", "uniform", "border", "centered", "weighted"]))
    n = draw(st.integers(1, 5))
    single = draw(st.integers(0, 3)) == 0
    doms = [draw(domain_spec()) for _ in range(n)]
    if single:
        doms = [doms[0]] * n
    src = [draw(domain_spec(bins=False)) for _ in range(n)]
    centers = [
        None
        if draw(st.booleans())
        else (
            draw(st.one_of(st.sampled_from([0.0, 1.0]), st.floats(0, 1))),
            draw(st.sampled_from([0.0, 0.25, 0.5, 0.75, 0.99])),
        )
        for _ in range(n)
    ]
    shape = draw(
        st.one_of(
            st.integers(1, 12),
            st.lists(st.integers(1, 3), min_size=1, max_size=3).map(tuple),
        )
    )
    allint = all(d["kind"] == "int" for d in doms)
    dtypes = ["none", "float64", "float32"] + (["int64"] * 2 if allint else [])
    return {
        "kind": kind, "ndim": n, "doms": doms, "single": single, "src": src,
        "centers": centers, "shape": shape, "dtype": draw(st.sampled_from(dtypes)),
        "parts": draw(st.lists(st.sampled_from(["sobol", "uniform", "centered"]), min_size=2, max_size=3)),
        "weights": draw(st.lists(st.sampled_from([0.0, 0.1, 1.0, 3.0]), min_size=3, max_size=3)),
        "seed": draw(st.integers(0, 2**20)),
        "scramble": draw(st.booleans()),
    }


def at(dom, u):
    """A value of the domain at about position u."""
    lo, hi = dom["lower"], dom["upper"]
    if dom["log"]:
        v = math.exp(math.log(lo) + u * (math.log(hi) - math.log(lo)))
    else:
        v = lo + u * (hi - lo)
    v = min(max(v, lo), hi)
    return int(round(v)) if dom["kind"] == "int" else v


def sampler(kind, case):
    import torch
    from neps.sampling import Prior, Sampler
    from neps.sampling.samplers import WeightedSampler

    n = case["ndim"]
    if kind == "sobol":
        return Sampler.sobol(n, scramble=case["scramble"])
    if kind == "uniform":
        return Sampler.uniform(n)
    if kind == "border":
        return Sampler.borders(n)
    if kind == "centered":
        return Prior.make_centered(
            [make(s) for s in case["src"]],
            [None if c is None else (at(s, c[0]), c[1])
             for s, c in zip(case["src"], case["centers"])],
        )
    w = case["weights"][: len(case["parts"])]
    if sum(w) == 0:
        w = [1.0] * len(w)
    return WeightedSampler(
        [sampler(p, case) for p in case["parts"]], torch.tensor(w, dtype=torch.float64)
    )


def inside(dom, v, eps):
    lo, hi = dom["lower"], dom["upper"]
    slack = eps * max(abs(lo), abs(hi), hi - lo)
    if dom["kind"] == "int":
        return lo <= v <= hi and float(v).is_integer()
    return lo - slack <= v <= hi + slack


def sample(case, ctx):
    import torch

    doms = [make(s) for s in case["doms"]]
    to = doms[0] if case["single"] else doms
    dtype = None if case["dtype"] == "none" else getattr(torch, case["dtype"])
    shape = case["shape"]
    n = shape if isinstance(shape, int) else torch.Size(shape)
    total = shape if isinstance(shape, int) else math.prod(shape)
    if case["kind"] == "border" and total > 2 ** case["ndim"]:
        # no more border points than that exist
        n, total = 1, 1
        shape = 1
    with sut("building the sampler"):
        s = sampler(case["kind"], case)
    expect(s.ncols == case["ndim"], "columns of the sampler")
    with sut("sample"):
        torch.manual_seed(case["seed"])
        x = s.sample(n, to=to, dtype=dtype)
        torch.manual_seed(case["seed"])
        x2 = s.sample(n, to=to, dtype=dtype)
    want = (shape, case["ndim"]) if isinstance(shape, int) else (*shape, case["ndim"])
    expect(tuple(x.shape) == want, f"shape {tuple(x.shape)}, asked for {want}")
    if dtype is not None:
        expect(x.dtype == dtype, f"dtype {x.dtype}, asked for {dtype}")
    expect(torch.equal(x, x2), "the same seed gives other samples")
    eps = 1e-12 if case["dtype"] == "float64" else 1e-6
    for i, d in enumerate(case["doms"]):
        for v in x[..., i].flatten().tolist():
            expect(inside(d, v, eps), f"column {i}: {v!r} is not in {d}")
            if case["kind"] == "border":
                lo, hi = d["lower"], d["upper"]
                expect(
                    min(abs(v - lo), abs(v - hi)) <= 1e-6 * max(abs(lo), abs(hi), hi - lo),
                    f"{v!r} is not on the border of {d}",
                )
    if case["kind"] == "border":
        rows = {tuple(r) for r in x.reshape(-1, case["ndim"]).tolist()}
        expect(len(rows) == total, "border points are repeated")
    ctx.nontrivial(case["ndim"] > 1 and total > 1)
    ctx.label(case["kind"], case["dtype"], "shape" if isinstance(case["shape"], tuple) else "n")


# ---------------------------------------------------------- coverage of the range


@st.composite
def spread_cases(draw):
    n = draw(st.integers(1, 3))
    return {
        "kind": draw(st.sampled_from(["sobol", "uniform", "centered"])),
        "doms": [draw(domain_spec(bins=False)) for _ in range(n)],
        "dtype": draw(st.sampled_from(["none", "float64"])),
        "seed": draw(st.integers(0, 2**20)),
    }


def spread(case, ctx):
    """512 uniform points reach every sixteenth of the range of every column."""
    import torch
    from neps.sampling import Prior, Sampler

    n = len(case["doms"])
    if case["kind"] == "centered":
        s = Prior.make_centered([make(d) for d in case["doms"]], [None] * n)
    else:
        s = Sampler.sobol(n) if case["kind"] == "sobol" else Sampler.uniform(n)
    torch.manual_seed(case["seed"])
    with sut("sample"):
        x = s.sample(
            512, to=[make(d) for d in case["doms"]],
            dtype=None if case["dtype"] == "none" else torch.float64,
        ).to(torch.float64)
    columns = []
    for i, d in enumerate(case["doms"]):
        lo, hi = d["lower"], d["upper"]
        vals = x[:, i].tolist()
        if d["kind"] == "int":
            if hi - lo < 16 and not d["log"]:
                # P(a given integer is missing) < 16 * (1 - 1/16)^512 < 1e-13
                expect(set(vals) == set(range(lo, hi + 1)), f"integers never drawn from {d}")
            continue
        if d["log"]:
            pos = [math.log(max(v, lo) / lo) / math.log(hi / lo) for v in vals]
        else:
            if max(abs(lo), abs(hi)) / (hi - lo) > 1e4:
                continue  # 32-bit output cannot resolve the range
            pos = [(v - lo) / (hi - lo) for v in vals]
        hit = {min(15, max(0, int(p * 16))) for p in pos}
        expect(len(hit) == 16, f"column {i} of {d}: only parts {sorted(hit)} are reached")
        columns.append((i, pos))
    # the columns do not depend on each other
    for j, (i, a) in enumerate(columns):
        for k, b in columns[:j]:
            ma, mb = sum(a) / 512, sum(b) / 512
            cov = sum((u - ma) * (v - mb) for u, v in zip(a, b))
            r = cov / math.sqrt(sum((u - ma) ** 2 for u in a) * sum((v - mb) ** 2 for v in b))
            # more than 7 sigma
            expect(abs(r) < 0.33, f"{case['kind']}: columns {k} and {i} have the correlation {r:.2f}")
    ctx.nontrivial(n > 1)
    ctx.label(case["kind"])


# --------------------------------------------------------------------- densities


@st.composite
def density_cases(draw):
    n = draw(st.integers(1, 5))
    src = [draw(domain_spec(bins=False)) for _ in range(n)]
    centers = [
        None
        if draw(st.booleans())
        else (draw(st.floats(0, 1)), draw(st.sampled_from([0.1, 0.25, 0.5, 0.75])))
        for _ in range(n)
    ]
    return {
        "src": src, "centers": centers,
        "points": draw(
            st.lists(st.lists(st.floats(0, 1), min_size=n, max_size=n), min_size=1, max_size=4)
        ),
        "frm_unit": draw(st.booleans()),
        "batch": draw(st.booleans()),
    }


def density(case, ctx):
    """The log density is the sum over the columns of each column's own density."""
    import torch
    from neps.sampling import Prior
    from neps.search_spaces.domain import Domain
    from scipy.stats import truncnorm

    doms = [make(s) for s in case["src"]]
    cents = [None if c is None else (at(s, c[0]), c[1])
             for s, c in zip(case["src"], case["centers"])]
    with sut("building the prior"):
        p = Prior.make_centered(doms, cents)
    if case["frm_unit"]:
        x = torch.tensor(case["points"], dtype=torch.float64)
        frm = [Domain.unit_float()] * len(doms)
        pos = case["points"]
    else:
        vals = [[at(s, u) for s, u in zip(case["src"], row)] for row in case["points"]]
        x = torch.tensor(vals, dtype=torch.float64)
        frm = doms
        pos = [[d.to_unit_one(v) for d, v in zip(doms, row)] for row in vals]
    if case["batch"]:
        x = x.unsqueeze(0)
    with sut("log_prob"):
        lp = p.log_prob(x, frm=frm)
        pr = p.prob(x, frm=frm)
    expect(lp.shape == x.shape[:-1], f"shape {tuple(lp.shape)} for {tuple(x.shape)}")
    expect(torch.allclose(pr, lp.exp()), "prob is not exp(log_prob)")
    for got, row in zip(lp.flatten().tolist(), pos):
        want = 0.0
        for u, c, d in zip(row, cents, doms):
            if c is None:
                continue
            loc, sd = d.to_unit_one(c[0]), 1 - c[1]
            want += truncnorm.logpdf(u, -loc / sd, (1 - loc) / sd, loc=loc, scale=sd)
        expect(
            abs(got - want) <= 1e-4 * (1 + abs(want)),
            f"log density {got}, expected {want} at {row} for centers {cents}",
        )
    # columns without a center do not matter
    with sut("log_prob without a column"):
        x3 = x.clone()
        for i, (c, s) in enumerate(zip(cents, case["src"])):
            if c is None:
                x3[..., i] = 0.5 if case["frm_unit"] else at(s, 0.5)
        lp3 = p.log_prob(x3, frm=frm)
    expect(torch.allclose(lp, lp3), "a column without a center changes the density")
    ctx.nontrivial(sum(c is not None for c in cents) >= 1 and len(cents) >= 2)
    ctx.label(f"centered={sum(c is not None for c in cents)}")


# ----------------------------------------------------- samples follow the centers


@st.composite
def center_cases(draw):
    n = draw(st.integers(1, 5))
    return {
        "doms": [draw(domain_spec(bins=False)) for _ in range(n)],
        "ends": [draw(st.sampled_from([None, 0.0, 1.0])) for _ in range(n)],
        "seed": draw(st.integers(0, 2**20)),
        "dtype": draw(st.sampled_from(["none", "float64"])),
    }


def centers(case, ctx):
    """Each column is drawn around its own center (mean of 400 draws, > 15 sigma margin)."""
    import torch
    from neps.sampling import Prior
    from neps.search_spaces.domain import Domain

    doms = [make(s) for s in case["doms"]]
    cs = [None if e is None else (d["lower"] if e == 0 else d["upper"], 0.75)
          for e, d in zip(case["ends"], case["doms"])]
    with sut("sampling"):
        p = Prior.make_centered(doms, cs)
        torch.manual_seed(case["seed"])
        x = p.sample(
            400, to=[Domain.unit_float()] * len(doms),
            dtype=None if case["dtype"] == "none" else torch.float64,
        )
    for i, e in enumerate(case["ends"]):
        m = x[:, i].double().mean().item()
        if e is None:
            expect(0.35 < m < 0.65, f"column {i} has no center, mean {m}")
        else:
            expect(abs(m - e) < 0.35, f"column {i} is centered at {e}, mean {m}")
    ctx.nontrivial(len(set(case["ends"])) > 1)


# ------------------------------------------------------------ subsets of the border


@st.composite
def border_cases(draw):
    d = draw(st.integers(2, 4))
    return {"ndim": d, "n": draw(st.integers(1, 2**d - 1)), "seed": draw(st.integers(0, 2**20)),
            "generator": draw(st.booleans())}


def border(case, ctx):
    """If not all corners are asked for, every corner and every pair is equally likely."""
    import itertools
    import torch
    from neps.sampling import Sampler
    from neps.search_spaces.domain import Domain

    d, n, reps = case["ndim"], case["n"], 300
    torch.manual_seed(case["seed"])
    gen = torch.Generator().manual_seed(case["seed"]) if case["generator"] else None
    s = Sampler.borders(d)
    singles, pairs = {}, {}
    for _ in range(reps):
        with sut("sampling corners"):
            rows = s.sample(n, to=[Domain.unit_float()] * d, seed=gen).tolist()
        ids = sorted(sum(int(v > 0.5) << i for i, v in enumerate(r)) for r in rows)
        expect(len(set(ids)) == n, f"{n} corners of {d} columns: {rows}")
        for c in ids:
            singles[c] = singles.get(c, 0) + 1
        for c in itertools.combinations(ids, 2):
            pairs[c] = pairs.get(c, 0) + 1
    N = 2**d
    for counts, keys, p in (
        (singles, range(N), n / N),
        (pairs, itertools.combinations(range(N), 2), n * (n - 1) / (N * (N - 1))),
    ):
        bound = 8 * math.sqrt(reps * p * (1 - p)) + 8
        for k in keys:
            c = counts.get(k, 0)
            expect(abs(c - reps * p) <= bound,
                   f"corner(s) {k} are among {n} of {N} corners in {c} of {reps} samples, expected {reps * p:.0f}")
    ctx.nontrivial(n > 1)
    ctx.label("generator" if case["generator"] else "global")


# ------------------------------------------------------------------- priors of choices


@st.composite
def choice_cases(draw):
    cols = [
        {"n": draw(st.integers(2, 6)), "how": draw(st.sampled_from(["indices", "unit", "other"])),
         "at": draw(st.floats(0, 0.999)), "conf": draw(st.sampled_from([0.0, 0.25, 0.5, 0.75, 0.95, 1.0])),
         "to": draw(st.sampled_from(["same", "indices", "unit"]))}
        for _ in range(draw(st.integers(1, 4)))
    ]
    return {"cols": cols, "seed": draw(st.integers(0, 2**20))}


def choices(case, ctx):
    """The centre of a categorical has the confidence as its probability, the others share the rest."""
    import torch
    from neps.sampling.priors import Prior
    from neps.search_spaces.domain import Domain

    torch.manual_seed(case["seed"])

    def domain(how, n):
        """The domain, and the values which stand for the choices."""
        if how == "indices":
            return Domain.indices(n, is_categorical=True), list(range(n))
        lo, hi = (0.0, 1.0) if how == "unit" else (-2.0, 5.0)
        return (Domain.floating(lo, hi, bins=n, is_categorical=True),
                [lo + (hi - lo) * i / (n - 1) for i in range(n)])

    doms, centers, tos, values = [], [], [], []
    for c in case["cols"]:
        d, vals = domain(c["how"], c["n"])
        i = c["i"] = int(c["at"] * c["n"])
        doms.append(d)
        centers.append((vals[i], c["conf"]))
        t, v = (d, vals) if c["to"] == "same" else domain(c["to"], c["n"])
        tos.append(t)
        values.append(v)
    N = 600
    with sut("sampling choices"):
        prior = Prior.make_centered(domains=doms, centers=centers)
        rows = prior.sample(N, to=tos).tolist()
    for j, (c, vals) in enumerate(zip(case["cols"], values)):
        counts = [0] * c["n"]
        for r in rows:
            at = min(range(c["n"]), key=lambda k: abs(vals[k] - r[j]))
            expect(abs(vals[at] - r[j]) < 1e-6, f"column {j}: {r[j]} is sampled, choices are {vals}")
            counts[at] += 1
        for k, m in enumerate(counts):
            p = c["conf"] if k == c["i"] else (1 - c["conf"]) / (c["n"] - 1)
            expect(abs(m - N * p) <= 7 * math.sqrt(N * p * (1 - p)) + 3,
                   f"column {j}: {m} of {N} samples are choice {k}, expected probability {p}")
    x = torch.tensor(rows[:40], dtype=torch.float64)
    with sut("density of choices"):
        got = prior.log_prob(x, frm=tos).tolist()
    for r, g in zip(x.tolist(), got):
        want = 0.0
        for v, c, vals in zip(r, case["cols"], values):
            k = min(range(c["n"]), key=lambda k: abs(vals[k] - v))
            want += math.log(c["conf"] if k == c["i"] else (1 - c["conf"]) / (c["n"] - 1))
        expect(abs(g - want) < 1e-4, f"log density {g} of {r}, expected {want}")
    ctx.nontrivial(any(0 < c["conf"] < 1 for c in case["cols"]))
    ctx.label(*{c["how"] for c in case["cols"]})


FACETS = [
    Facet("choices", choice_cases, choices, 150, 3000, 1, rule="a confidence between 0 and 1"),
    Facet("border", border_cases, border, 25, 500, 1, rule="more than one corner"),
    Facet("sample", cases, sample, 1500, 25000, 2, rule="several columns and samples"),
    Facet("spread", spread_cases, spread, 200, 3000, 1, rule="more than one column"),
    Facet("density", density_cases, density, 500, 10000, 2,
          rule="at least one centered column among several"),
    Facet("centers", center_cases, centers, 300, 5000, 1, rule="columns with different centers"),
]
