"""All searchers by name: those neps.run knows, and the classes that have no name there."""

from __future__ import annotations

NAMELESS = {
    "AsynchronousHyperband": "neps.optimizers.multi_fidelity.hyperband",
    "AsynchronousHyperbandWithPriors": "neps.optimizers.multi_fidelity.hyperband",
    "HyperbandWithPriors": "neps.optimizers.multi_fidelity.hyperband",
}


def searcher(name: str):
    import importlib

    from neps.optimizers import SearcherMapping

    if name in NAMELESS:
        return getattr(importlib.import_module(NAMELESS[name]), name)
    return SearcherMapping[name]
