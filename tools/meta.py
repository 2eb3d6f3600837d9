"""Source of properties.jsonl and MANIFEST.json: run `python3 tools/meta.py` after editing."""

from __future__ import annotations

import importlib.util
import json
import re
from pathlib import Path

HOME = Path(__file__).resolve().parent.parent
P: dict[str, dict] = {}
LEVELS = {"exploration", "fault_enumeration", "other"}


def prop(id, title, statement, over, text, why, files, mech, technique, note,
         level="exploration", state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    assert len(re.findall(r"[.!?](?:\s|$)", statement)) <= 3, id
    P[id] = dict(
        line={
            "id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": a, "where": b} for a, b in mech],
                **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                **({"observe_at": list(observe)} if observe else {}),
            },
        },
        technique=technique, level=level, note=note,
    )


exec((Path(__file__).parent / "props.py").read_text())


def main():
    props = [P[k]["line"] for k in sorted(P)]
    (HOME / "properties.jsonl").write_text(
        "".join(json.dumps(p, ensure_ascii=False) + "\n" for p in props)
    )
    checks, na = [], []
    for k in sorted(P):
        if list((HOME / "checks").glob(f"{k.lower()}_*.py")):
            checks.append({
                "property": k,
                "quick_cmd": f"bash /verif/run.sh {k}",
                "thorough_cmd": f"bash /verif/run.sh {k} --tier thorough",
                "evidence_file": f"evidence/{k}.json",
                "technique": P[k]["technique"],
                "level": P[k]["level"],
                "level_note": P[k]["note"],
            })
        else:
            na.append({"property": k, "reason": "no check has been built yet"})
    man = {
        "version": 1,
        "setup_cmd": "true",
        "checks": checks,
        "not_applicable": na,
        "notes": "Every check runs the code of /repo's working tree (put first on PYTHONPATH,"
        " nothing is built or installed); Hypothesis is vendored in /verif/vendor. No hooks in"
        " /repo are used.",
    }
    (HOME / "MANIFEST.json").write_text(json.dumps(man, indent=1, ensure_ascii=False) + "\n")
    print(len(props), "properties,", len(checks), "checks")


main()
