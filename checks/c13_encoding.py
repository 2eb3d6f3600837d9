"""C13: encoding configurations into tensors and back loses nothing."""

from __future__ import annotations

import math

from hypothesis import strategies as st

from vlib import spaces
from vlib.core import Facet, expect, sut

ASSUMPTIONS = ["numerical, categorical and constant parameters; graphs are not encodable"]


@st.composite
def cases(draw):
    spec = draw(spaces.space_specs(max_size=6, many=True))
    n = draw(st.integers(1, 5))
    return {
        "spec": spec,
        "configs": [draw(spaces.configs_for(spec)) for _ in range(n)],
        "order": draw(st.permutations(list(spec))),
        "unit_cats": draw(st.booleans()),
        "dtype": draw(st.sampled_from(["float64", "float64", "float32"])),
        # arbitrary points of the encoded box
        "points": draw(
            st.lists(
                st.lists(
                    st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.floats(0, 1)),
                    min_size=7, max_size=7,
                ),
                min_size=1, max_size=4,
            )
        ),
    }


def make_encoder(spec, order, unit_cats):
    from neps.search_spaces.encoding import CategoricalToUnitNorm, ConfigEncoder

    params = spaces.build_params({k: spec[k] for k in order})
    consts = {k: d["value"] for k, (kind, d) in spec.items() if kind == "const"}
    return ConfigEncoder.default(
        {k: p for k, p in params.items() if k not in consts},
        constants=consts,
        custom_transformers={
            k: CategoricalToUnitNorm(d["choices"])
            for k, (kind, d) in spec.items()
            if kind == "cat"
        }
        if unit_cats
        else None,
    )


def enc_tol(kind, d, f32):
    if kind == "cat":
        return 1e-6
    lo, hi = d["lower"], d["upper"]
    if d.get("log"):
        cond = (1 + max(abs(math.log(lo)), abs(math.log(hi)))) / math.log(hi / lo)
    else:
        cond = max(1.0, max(abs(lo), abs(hi)) / (hi - lo))
    return (1e-5 if f32 else 1e-12) * cond


def encode(case, ctx):
    import torch

    spec, configs = case["spec"], case["configs"]
    f32 = case["dtype"] == "float32"
    with sut("building the encoder"):
        enc = make_encoder(spec, case["order"], case["unit_cats"])
    cols = sorted(k for k, (kind, _) in spec.items() if kind != "const")
    expect(enc.ncols == len(cols), f"{enc.ncols} columns for {cols}")
    expect(len(enc.domains) == len(cols), "one domain per column")
    expect(
        sorted(enc.index_of.values()) == list(range(len(cols)))
        and set(enc.index_of) == set(cols),
        f"columns {enc.index_of}",
    )
    ncat = sum(kind == "cat" for kind, _ in spec.values())
    expect(enc.n_categorical == ncat and enc.n_numerical == len(cols) - ncat, "counts")
    before = [dict(c) for c in configs]
    with sut("encode"):
        x = enc.encode(configs, dtype=getattr(torch, case["dtype"]))
        singles = [enc.encode([c], dtype=getattr(torch, case["dtype"])) for c in configs]
        extra = enc.encode(
            [dict(c, unrelated=1) for c in configs], dtype=getattr(torch, case["dtype"])
        )
        # the column order does not depend on the order of the parameters
        other = make_encoder(spec, list(reversed(case["order"])), case["unit_cats"])
        x2 = other.encode(configs, dtype=getattr(torch, case["dtype"]))
    expect(configs == before, "the configurations were modified")
    expect(tuple(x.shape) == (len(configs), len(cols)), f"shape {tuple(x.shape)}")
    expect(x.dtype == getattr(torch, case["dtype"]), f"dtype {x.dtype}")
    expect(torch.equal(x, torch.cat(singles)), "rows depend on each other")
    expect(torch.equal(x, extra), "unrelated keys change the encoding")
    expect(torch.equal(x, x2), "the order of the parameters changes the encoding")
    for k in cols:
        kind, d = spec[k]
        dom = enc.domain_of[k]
        i = enc.index_of[k]
        expect(enc.domains[i] == dom, "domains out of order")
        for row, c in zip(x[:, i].tolist(), configs):
            expect(dom.lower <= row <= dom.upper, f"{k}: {row} outside its domain")
            if kind == "cat":
                ix = next(j for j, ch in enumerate(d["choices"]) if spaces.same(ch, c[k]))
                want = ix / (len(d["choices"]) - 1) if case["unit_cats"] else float(ix)
            else:
                want = spaces.normalize(kind, d, c[k])
            expect(
                abs(row - want) <= enc_tol(kind, d, f32),
                f"{k}={c[k]!r} is encoded as {row}, expected {want}",
            )
    with sut("decode"):
        back = enc.decode(x)
    expect(len(back) == len(configs), "number of decoded configurations")
    for c, b in zip(configs, back):
        expect(set(b) == set(c), f"decoded {sorted(b)}, encoded {sorted(c)}")
        for k, (kind, d) in spec.items():
            if kind == "float":
                expect(
                    type(b[k]) is float
                    and abs(spaces.normalize(kind, d, min(max(b[k], d["lower"]), d["upper"]))
                            - spaces.normalize(kind, d, c[k]))
                    <= 8 * enc_tol(kind, d, f32),
                    f"{k}: {c[k]!r} came back as {b[k]!r}",
                )
                if not f32:
                    expect(d["lower"] <= b[k] <= d["upper"], f"{k}: {b[k]!r} out of bounds")
            elif kind == "int" and f32 and (d["upper"] - d["lower"]) > 300:
                expect(abs(b[k] - c[k]) <= 1, f"{k}: {c[k]} came back as {b[k]}")
            else:
                expect(spaces.same(b[k], c[k]), f"{k}: {c[k]!r} came back as {b[k]!r}")
    ctx.nontrivial(len(cols) >= 2 and len(configs) >= 2)
    ctx.label(case["dtype"], "unit" if case["unit_cats"] else "index", f"cols={len(cols)}")


def decode(case, ctx):
    """Whatever point of the encoded box is decoded, the result is in the space."""
    import torch

    spec = case["spec"]
    with sut("building the encoder"):
        enc = make_encoder(spec, case["order"], case["unit_cats"])
    rows = []
    for p in case["points"]:
        rows.append([
            dom.lower + u * (dom.upper - dom.lower) for u, dom in zip(p, enc.domains)
        ])
    x = torch.tensor(rows, dtype=torch.float64)
    with sut("decode"):
        out = enc.decode(x)
    expect(len(out) == len(rows), "number of configurations")
    for c in out:
        spaces.expect_in_space(spec, c, "decoding a point of the box")
    with sut("encoding what was decoded"):
        again = enc.decode(enc.encode(out))
    for c, b in zip(out, again):
        for k, (kind, d) in spec.items():
            if kind != "float":
                expect(spaces.same(b[k], c[k]), f"{k}: {c[k]!r} came back as {b[k]!r}")
    ctx.nontrivial(len(enc.domains) >= 2)


FACETS = [
    Facet("encode", cases, encode, 1200, 25000, 3,
          rule="at least two columns and two configurations"),
    Facet("decode", cases, decode, 800, 15000, 2, rule="at least two columns"),
]
