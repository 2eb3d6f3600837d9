"""Entry point: python -m vlib.main <PROPERTY> [--tier T] [--replay FILE] [--facet F] [--scale X]."""

from __future__ import annotations

import argparse
import base64
import contextlib
import importlib
import io
import json
import logging
import multiprocessing as mp
import os
import pickle
import shutil
import sys
import tempfile
import time
import traceback
import warnings
import zlib
from collections import Counter
from pathlib import Path

warnings.filterwarnings("ignore")


def load_known(prop: str) -> list[dict]:
    from vlib.core import HOME

    p = HOME / "known_findings.json"
    if not p.exists():
        return []
    data = json.loads(p.read_text())
    return [f for f in data.get("findings", []) if f["property"] == prop]


def _quiet() -> None:
    logging.disable(logging.CRITICAL)
    os.environ["TQDM_DISABLE"] = "1"


def _job(mod_name, facet_name, tier, known, seed, n, fixed, budget, scratch, conn):
    from vlib import core

    res = core.Result(facet_name)
    try:
        _quiet()
        d = tempfile.mkdtemp(prefix="job-", dir=scratch)
        core.set_scratch_root(d)
        os.chdir(d)
        # Nothing the code under test prints may look like a verdict of the check.
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get("VERIF_DEBUG"):
            os.dup2(devnull, 2)
        mod = importlib.import_module(mod_name)
        facet = next(f for f in mod.FACETS if f.name == facet_name)
        drv = core.Driver(facet, tier, known, budget)
        res = drv.drive(seed, n, fixed)
    except BaseException as e:  # noqa: BLE001
        res.error = f"{type(e).__name__}: {e}\n{traceback.format_exc()}"
    conn.send_bytes(pickle.dumps(res))
    conn.close()
    os._exit(0)


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--facet")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS") or 8))
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"

    from vlib import core

    t0 = time.monotonic()
    import neps

    if not Path(neps.__file__).resolve().is_relative_to(core.SRC):
        print(f"ERROR neps imported from {neps.__file__}, not {core.SRC}")
        return 2
    mods = [
        p.stem for p in (core.HOME / "checks").glob(f"{a.prop.lower()}_*.py")
    ]
    if len(mods) != 1:
        print(f"ERROR no check module for {a.prop}")
        return 2
    mod_name = f"checks.{mods[0]}"
    mod = importlib.import_module(mod_name)
    facets = [f for f in mod.FACETS if a.facet is None or f.name == a.facet]
    known_entries = load_known(a.prop)
    known = {f["key"] for f in known_entries}

    scratch = tempfile.mkdtemp(prefix=f"verif-{a.prop}-")
    try:
        if a.replay:
            return replay(a, mod, known, scratch)
        return run(a, mod, mod_name, facets, known, known_entries, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(a, mod, known, scratch) -> int:
    from vlib import core

    _quiet()
    core.set_scratch_root(scratch)
    rec = json.loads(Path(a.replay).read_text())
    facet = next(f for f in mod.FACETS if f.name == rec["facet"])
    case = pickle.loads(base64.b64decode(rec["pickle"]))
    drv = core.Driver(facet, a.tier, known, 1e9)
    os.chdir(scratch)
    try:
        drv.run_one(case)
    except core.Violation as v:
        traceback.print_exc()
        print(f"VIOLATION property={a.prop} replay={a.replay}")
        return 1
    print("replay: the property holds on this case")
    return 0


def run(a, mod, mod_name, facets, known, known_entries, scratch, t0) -> int:
    from vlib import core

    ctx = mp.get_context("fork")
    jobs = []
    for f in facets:
        n = int((f.quick if a.tier == "quick" else f.thorough) * a.scale)
        budget = f.quick_s if a.tier == "quick" else f.thorough_s
        shards = max(1, f.shards if a.tier == "quick" else max(f.shards, 4))
        if n == 0:
            shards = 1
        for s in range(shards):
            seed = zlib.crc32(f"{a.prop}/{f.name}/{a.seed}/{s}".encode())
            k = n // shards + (1 if s < n % shards else 0)
            jobs.append((f, seed, k, s == 0, budget))
    if a.jobs == 8:
        a.jobs = getattr(mod, "JOBS", 8)
    # interleave the shards of the facets, first shards first
    jobs.sort(key=lambda j: (not j[3], -j[4]))
    running: list = []
    results: list = []
    pending = list(jobs)
    failed = None
    errors = []
    while pending or running:
        while pending and len(running) < a.jobs and failed is None:
            f, seed, k, fixed, budget = pending.pop(0)
            r, w = ctx.Pipe(duplex=False)
            p = ctx.Process(
                target=_job,
                args=(mod_name, f.name, a.tier, known, seed, k, fixed, budget, scratch, w),
            )
            p.start()
            w.close()
            running.append((p, r, f))
        if failed is not None and not running:
            break
        if failed is not None:
            for p, r, f in running:
                p.kill()
            for p, r, f in running:
                p.join()
            running = []
            break
        ready = mp.connection.wait([r for _, r, _ in running], timeout=5)
        for item in list(running):
            p, r, f = item
            if r in ready:
                try:
                    res = pickle.loads(r.recv_bytes())
                except EOFError:
                    p.join()
                    res = core.Result(f.name, error=f"worker died, exit {p.exitcode}")
                p.join()
                running.remove(item)
                results.append(res)
                if res.error:
                    errors.append(res)
                if res.failure and failed is None:
                    failed = res
    wall = time.monotonic() - t0

    per = {}
    labels: dict[str, Counter] = {}
    evaluations = 0
    nontriv: set = set()
    samples = []
    known_seen: Counter = Counter()
    for res in results:
        d = per.setdefault(
            res.facet, {"evaluations": 0, "distinct_nontrivial": set(), "skipped": 0}
        )
        d["evaluations"] += res.evaluations
        d["skipped"] += res.skipped
        d["distinct_nontrivial"] |= {(res.facet, h) for h in res.nontrivial}
        labels.setdefault(res.facet, Counter()).update(res.labels)
        evaluations += res.evaluations
        nontriv |= {(res.facet, h) for h in res.nontrivial}
        known_seen.update(res.known)
    seen_f = Counter()
    for res in results:
        for s in res.samples:
            if seen_f[res.facet] < 2:
                seen_f[res.facet] += 1
                samples.append({"facet": res.facet, "case": s})
    for k, d in per.items():
        d["distinct_nontrivial"] = len(d["distinct_nontrivial"])
        d["labels"] = dict(labels[k].most_common(40))

    ev = {
        "property": a.prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontriv),
            "rule": " | ".join(f"{f.name}: {f.rule}" for f in facets),
            "samples": samples,
            "facets": per,
            "known_findings_hit": dict(known_seen),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": 1 if failed else 0,
    }
    evdir = core.HOME / "evidence"
    evdir.mkdir(exist_ok=True)
    (evdir / f"{a.prop}.json").write_text(json.dumps(ev, indent=1))

    for f in known_entries:
        if known_seen.get(f["key"]):
            print(f"KNOWN-FINDING: property={a.prop} {f['what']}")

    for k, d in sorted(per.items()):
        print(
            f"  {a.prop}/{k}: {d['evaluations']} cases,"
            f" {d['distinct_nontrivial']} distinct non-trivial,"
            f" {d['skipped']} skipped on time budget"
        )
    if failed:
        rdir = core.HOME / "replays"
        rdir.mkdir(exist_ok=True)
        rp = rdir / f"{a.prop}-{failed.facet}.json"
        rp.write_text(
            json.dumps({"property": a.prop, "seed": a.seed, "tier": a.tier, **failed.failure}, indent=1)
        )
        print(f"facet {failed.facet}: {failed.failure['message'][:3000]}")
        print(f"minimal case: {failed.failure['case'][:3000]}")
        print(f"VIOLATION property={a.prop} replay={rp}")
        return 1
    if errors:
        for res in errors:
            print(f"ERROR in facet {res.facet}: {res.error}")
        return 2
    print(f"OK {a.prop} {evaluations} cases in {wall:.1f}s")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc) if rc not in (0, 1, 2) else sys.exit(rc)
