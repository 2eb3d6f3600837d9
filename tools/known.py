"""Source of known_findings.json."""
import json, subprocess
from pathlib import Path
HOME = Path(__file__).resolve().parent.parent
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
PROP = json.loads((HOME / "tools" / "fixed_props.json").read_text())
fixed = []
for line in reversed(log):
    h, subj = line.split(" ", 1)
    if not subj.startswith("fix:"):
        continue
    key = next((k for k in PROP if subj[5:].startswith(k)), None)
    assert key, subj
    fixed.append(f"fixed: property={PROP[key]} {h} {subj[5:]}")
findings = json.loads((HOME / "tools" / "findings.json").read_text())
(HOME / "known_findings.json").write_text(json.dumps({"findings": findings, "fixed": fixed}, indent=1, ensure_ascii=False) + "\n")
print(len(findings), "findings", len(fixed), "fixed")
