"""C12: casts between numerical domains are order-preserving, in bounds and invertible."""

from __future__ import annotations

import math

from hypothesis import strategies as st

from vlib.core import Facet, expect, sut

ASSUMPTIONS = [
    "64-bit tensors; |bounds| <= 1e9 and at least 1e-9 relative distance between the bounds",
]


@st.composite
def domain_spec(draw, *, bins=True, kinds=("float", "int")):
    kind = draw(st.sampled_from(kinds))
    log = draw(st.booleans())
    if kind == "int":
        lower = draw(st.integers(1, 50) if log else st.integers(-1000, 1000))
        width = draw(st.one_of(st.integers(1, 6), st.integers(1, 3000)))
        upper = lower + width
    elif log:
        lower = draw(
            st.one_of(st.sampled_from([1e-6, 1e-3, 0.1, 1.0, 7.0]), st.floats(1e-8, 1e3))
        )
        upper = lower * draw(
            st.one_of(st.sampled_from([2.0, 10.0, 1e4]), st.floats(1.01, 1e6))
        )
    else:
        lower = draw(
            st.one_of(
                st.sampled_from([0.0, -1.0, 0.1, 12.0, -0.3]), st.floats(-1e6, 1e6)
            )
        )
        upper = lower + draw(
            st.one_of(st.sampled_from([1.0, 0.1, 0.2, 10.0]), st.floats(1e-2, 1e6))
        )
    b = None
    if bins and draw(st.integers(0, 3)) == 0:
        b = draw(st.integers(2, 12))
        if kind == "int":
            b = min(b, upper - lower + 1)
    return {"kind": kind, "lower": lower, "upper": upper, "log": log, "bins": b}


def make(s):
    from neps.search_spaces.domain import Domain

    f = Domain.floating if s["kind"] == "float" else Domain.integer
    return f(s["lower"], s["upper"], log=s["log"], bins=s["bins"])


def value(draw, s):
    if s["kind"] == "int":
        return draw(
            st.one_of(
                st.sampled_from([s["lower"], s["upper"]]),
                st.integers(s["lower"], s["upper"]),
            )
        )
    return draw(
        st.one_of(
            st.sampled_from([s["lower"], s["upper"]]),
            st.floats(s["lower"], s["upper"], allow_nan=False),
        )
    )


unit = st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.floats(0.0, 1.0))


def ref_unit(s, v):
    lo, hi = s["lower"], s["upper"]
    if s["log"]:
        return (math.log(v) - math.log(lo)) / (math.log(hi) - math.log(lo))
    return (v - lo) / (hi - lo)


def tol(s):
    """Tolerance for positions on the unit interval, from the conditioning of the domain."""
    lo, hi = s["lower"], s["upper"]
    if s["kind"] == "int":
        # torch divides integer tensors in 32 bits
        return 1e-6 * (1 + (abs(math.log(hi)) / math.log(hi / lo) if s["log"] else 0))
    if s["log"]:
        return 1e-12 * (1 + max(abs(math.log(lo)), abs(math.log(hi)))) / math.log(hi / lo)
    return 1e-12 * max(1.0, max(abs(lo), abs(hi)) / (hi - lo))


def close(s, a, b):
    """Two values of the domain that are equal up to rounding."""
    if s["kind"] == "int":
        return a == b
    t = 8 * tol(s) * (s["upper"] - s["lower"])
    return math.isclose(a, b, rel_tol=1e-9, abs_tol=t if not s["log"] else 0)


# ------------------------------------------------------------------ one domain


@st.composite
def one_cases(draw):
    s = draw(domain_spec())
    return {
        "dom": s,
        "values": [value(draw, s) for _ in range(draw(st.integers(1, 8)))],
        "units": draw(st.lists(unit, min_size=1, max_size=8)),
    }


def tensor(s, vals):
    import torch

    return torch.tensor(vals, dtype=torch.int64 if s["kind"] == "int" else torch.float64)


def one(case, ctx):
    import torch

    s = case["dom"]
    with sut("building the domain"):
        d = make(s)
    expect((d.lower, d.upper) == (s["lower"], s["upper"]) == tuple(d.bounds), "bounds")
    want_card = s["bins"] or (
        s["upper"] - s["lower"] + 1 if s["kind"] == "int" else None
    )
    expect(d.cardinality == want_card, f"cardinality {d.cardinality}, not {want_card}")
    vals = sorted(case["values"])
    with sut("to_unit"):
        us = d.to_unit(tensor(s, vals)).tolist()
    expect(all(0 <= u <= 1 for u in us), f"{vals} -> {us} outside the unit interval")
    expect(us == sorted(us), f"to_unit is not monotone: {vals} -> {us}")
    if s["bins"] is None:
        for v, u in zip(vals, us):
            expect(
                abs(u - ref_unit(s, v)) <= tol(s),
                f"{v} is at {ref_unit(s, v)} of its range, not at {u}",
            )
    with sut("from_unit of to_unit"):
        back = d.from_unit(torch.tensor(us, dtype=torch.float64)).tolist()
    for v, b in zip(vals, back):
        expect(
            s["lower"] <= b <= s["upper"],
            f"{v} came back as {b}, outside of the domain",
        )
        if s["bins"] is None:
            expect(close(s, v, b), f"{v!r} came back as {b!r}")
    if s["bins"] is not None:
        # values are snapped to the bins: snapping twice changes nothing
        with sut("second projection"):
            again = d.from_unit(d.to_unit(tensor(s, back))).tolist()
        if s["kind"] == "float":
            expect(
                all(close(s, a, b) or abs(ref_unit(s, a) - ref_unit(s, b)) <= tol(s)
                    for a, b in zip(again, back))
                or _edge(s, back),
                f"projection onto the bins is not stable: {back} -> {again}",
            )
    # any point of the unit interval
    pts = sorted(case["units"])
    with sut("from_unit"):
        out = d.from_unit(torch.tensor(pts, dtype=torch.float64))
    if s["kind"] == "int":
        expect(out.dtype == torch.int64, "an integer domain gives integers")
    out = out.tolist()
    expect(out == sorted(out), f"from_unit is not monotone: {pts} -> {out}")
    for u, v in zip(pts, out):
        expect(s["lower"] <= v <= s["upper"], f"{u} -> {v!r} is outside of the domain")
        if s["bins"] is None and s["kind"] == "int" and not s["log"]:
            q = want_card
            k = min(q - 1, int(math.floor(u * q)))
            near = abs(u * q - round(u * q)) < 1e-9
            expect(near or v == s["lower"] + k, f"{u} -> {v}, expected {s['lower'] + k}")
        if s["bins"] is None and s["kind"] == "float":
            expect(
                abs(ref_unit(s, v) - u) <= 4 * tol(s), f"{u} -> {v!r} at {ref_unit(s, v)}"
            )
    if 0.0 in pts:
        expect(out[pts.index(0.0)] == s["lower"] or close(s, out[0], s["lower"]), "0 -> lower")
    if 1.0 in pts:
        expect(close(s, out[-1], s["upper"]), f"1 -> {out[-1]}")
    if s["bins"] is not None:
        import numpy as np

        with sut("bins"):
            many = d.from_unit(torch.linspace(0, 1, 400, dtype=torch.float64)).tolist()
        expect(
            len(set(many)) <= s["bins"], f"{len(set(many))} values for {s['bins']} bins"
        )
        if s["kind"] == "float":
            expect(len(set(many)) == s["bins"], f"{len(set(many))} of {s['bins']} bins used")
    ctx.nontrivial(len(set(case["values"])) > 1 or s["bins"] is not None)
    ctx.label(s["kind"], "log" if s["log"] else "linear", "bins" if s["bins"] else "plain")


def _edge(s, back):
    """Bin values that lie, up to rounding, on the edge between two bins."""
    q = s["bins"]
    return any(
        abs(ref_unit(s, b) * q - round(ref_unit(s, b) * q)) < 1e-6 for b in back
    )


# -------------------------------------------------------------- every integer


@st.composite
def int_cases(draw):
    return {
        "dom": draw(domain_spec(bins=False, kinds=("int",))),
    }


def every_int(case, ctx):
    import torch

    s = case["dom"]
    d = make(s)
    vals = list(range(s["lower"], s["upper"] + 1))
    with sut("round trip of every integer"):
        u = d.to_unit(torch.tensor(vals))
        back = d.from_unit(u).tolist()
    bad = [(a, b) for a, b in zip(vals, back) if a != b]
    expect(not bad, f"integers do not survive the unit interval: {bad[:5]}")
    expect(len(set(u.tolist())) == len(vals), "two integers share a position")
    ctx.nontrivial(len(vals) > 2)
    ctx.label("log" if s["log"] else "linear")


# ------------------------------------------------------------------ two domains


@st.composite
def cast_cases(draw):
    a = draw(domain_spec())
    rel = draw(st.sampled_from([
        "any", "any", "same", "bounds-of-log", "log-of-bounds", "rebinned", "rescaled"]))
    b = draw(domain_spec())
    if rel == "same":
        b = dict(a)
    elif rel == "rebinned" and a["kind"] == "float":
        b = dict(a, bins=draw(st.integers(2, 9)))
    elif rel == "rescaled" and a["lower"] > 0:
        b = dict(a, log=not a["log"], bins=draw(st.sampled_from([a["bins"], None])))
    elif rel in ("bounds-of-log", "log-of-bounds"):
        a = draw(
            domain_spec(
                bins=rel == "log-of-bounds",
                kinds=("float", "int") if rel == "log-of-bounds" else ("float",),
            ).filter(lambda s: s["log"])
        )
        b = dict(
            kind="float", lower=math.log(a["lower"]), upper=math.log(a["upper"]),
            log=False, bins=None,
        )
        if rel == "log-of-bounds":
            a, b = b, a
    return {
        "frm": a,
        "to": b,
        "rel": rel,
        "values": [value(draw, a) for _ in range(draw(st.integers(1, 6)))],
    }


def cast(case, ctx):
    import torch

    a, b = case["frm"], case["to"]
    A, B = make(a), make(b)
    vals = sorted(case["values"])
    x = tensor(a, vals)
    keep = x.clone()
    with sut("cast"):
        y = B.cast(x, frm=A)
        via = B.from_unit(A.to_unit(x))
        ones = [B.cast_one(v, frm=A) for v in vals]
        u1 = [A.to_unit_one(v) for v in vals]
        uu = A.to_unit(x).tolist()
    expect(torch.equal(x, keep), "the input was modified")
    if b["kind"] == "int":
        expect(y.dtype == torch.int64, "an integer domain gives integers")
    ys = y.tolist()
    expect(ys == sorted(ys), f"cast is not monotone: {vals} -> {ys}")
    for v, o, w in zip(vals, ys, via.tolist()):
        expect(
            b["lower"] <= o <= b["upper"]
            or (a == b and o == v)
            or (b["kind"] == "float" and close(b, o, min(max(o, b["lower"]), b["upper"]))),
            f"{v} -> {o!r}, outside [{b['lower']!r}, {b['upper']!r}]",
        )
        if a == b:
            expect(o == v, f"cast to the same domain changed {v} to {o}")
        elif b["kind"] == "float" and b["bins"] is None:
            expect(
                abs(ref_unit(b, min(max(o, b["lower"]), b["upper"])) - ref_unit(b, w))
                <= 1e-6 + 8 * (tol(a) + tol(b)),
                f"{v}: cast gives {o!r}, through the unit interval {w!r}",
            )
        if a["bins"] is None and b["bins"] is None and b["kind"] == "float":
            expect(
                abs(ref_unit(b, min(max(o, b["lower"]), b["upper"])) - ref_unit(a, v))
                <= 1e-6 + 8 * (tol(a) + tol(b)),
                f"{v} at {ref_unit(a, v)} -> {o!r} at {ref_unit(b, o)}",
            )
            if a["kind"] == "float" or True:
                with sut("cast back"):
                    back = A.cast_one(o, frm=B)
                expect(
                    back == v if a["kind"] == "int" else
                    abs(ref_unit(a, back) - ref_unit(a, v)) <= 1e-6 + 8 * (tol(a) + tol(b)),
                    f"{v!r} -> {o!r} -> {back!r}",
                )
    # a binned domain consists of its bins
    if b["bins"] and not all(a[k] == b[k] for k in ("lower", "upper", "log", "bins")):
        for v, o in zip(vals, ys):
            u = ref_unit(b, o) * (b["bins"] - 1)
            if b["kind"] == "float":
                expect(
                    abs(u - round(u)) <= 1e-6 + 8 * b["bins"] * tol(b),
                    f"{v} -> {o!r}, which is not one of the {b['bins']} bins",
                )
    # the scalar versions agree with the tensor versions
    for v, o, u, y1, w in zip(vals, ones, u1, ys, uu):
        if a["bins"] is None:
            expect(abs(u - w) <= 8 * tol(a), f"to_unit_one {v}: {u}, tensor {w}")
        if a["bins"] is None and b["bins"] is None and b["kind"] == "float":
            expect(
                a["kind"] == "int" or close(b, o, y1), f"cast_one {v} -> {o!r}, tensor {y1!r}"
            )
        expect(
            b["lower"] <= o <= b["upper"] or close(b, o, y1), f"cast_one {v} -> {o!r}"
        )
        expect(isinstance(o, int) == (b["kind"] == "int"), f"cast_one {v} -> {o!r}")
    ctx.nontrivial(a != b)
    ctx.label(case["rel"], f"{a['kind']}->{b['kind']}")


# ------------------------------------------------------------------ mixed tensors


@st.composite
def translate_cases(draw):
    n = draw(st.integers(1, 5))
    allint = draw(st.integers(0, 3)) == 0
    ks = ("int",) if allint else ("float", "int")
    a = [draw(domain_spec(bins=False, kinds=ks)) for _ in range(n)]
    b = [draw(domain_spec(bins=False)) for _ in range(n)]
    rows = draw(st.integers(1, 4))
    single = draw(st.sampled_from([None, None, "frm", "to"]))
    if single == "frm":
        a = [a[0]] * n
    if single == "to":
        b = [b[0]] * n
    return {
        "frm": a, "to": b, "single": single,
        "rows": [[value(draw, s) for s in a] for _ in range(rows)],
        "int_tensor": allint,
        "batch": draw(st.booleans()),
    }


def translate(case, ctx):
    import torch
    from neps.search_spaces.domain import Domain

    a, b = case["frm"], case["to"]
    A, B = [make(s) for s in a], [make(s) for s in b]
    x = torch.tensor(
        case["rows"], dtype=torch.int64 if case["int_tensor"] else torch.float64
    )
    if case["batch"]:
        x = x.unsqueeze(0)
    keep = x.clone()
    with sut("translate"):
        y = Domain.translate(
            x,
            frm=A[0] if case["single"] == "frm" else A,
            to=B[0] if case["single"] == "to" else B,
        )
    expect(torch.equal(x, keep), "the input was modified")
    expect(y.shape == x.shape, f"shape {tuple(x.shape)} became {tuple(y.shape)}")
    for i, (da, db, sb) in enumerate(zip(A, B, b)):
        with sut("cast of a column"):
            col = db.cast(x[..., i], frm=da).to(torch.float64)
        got = y[..., i].to(torch.float64)
        expect(
            torch.allclose(got, col, rtol=1e-9, atol=1e-9 * (sb["upper"] - sb["lower"])),
            f"column {i}: {got.tolist()} instead of {col.tolist()}",
        )
    ctx.nontrivial(len(a) > 1)
    ctx.label(f"cols={len(a)}", "int" if case["int_tensor"] else "float", str(case["single"]))


FACETS = [
    Facet("one_domain", one_cases, one, 2500, 40000, 2,
          rule="two different values, or a binned domain"),
    Facet("every_integer", int_cases, every_int, 400, 6000, 2,
          rule="more than two integers in the domain"),
    Facet("cast", cast_cases, cast, 2500, 40000, 2, rule="source and target domain differ"),
    Facet("translate", translate_cases, translate, 800, 15000, 2,
          rule="more than one column"),
]
