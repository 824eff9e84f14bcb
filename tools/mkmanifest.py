"""Writes /verif/MANIFEST.json from contracts/claims.py."""
import json
import pathlib
import sys
HERE = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE))
from contracts.claims import CLAIMS, NOT_APPLICABLE

checks = []
for pid, (level, tech, note) in sorted(CLAIMS.items()):
    checks.append(dict(property=pid, quick_cmd="python3-vt check.py %s quick" % pid, thorough_cmd="python3-vt check.py %s thorough" % pid,
                       technique=tech, level=level, level_note=note))
m = dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NOT_APPLICABLE.items())],
         notes="contracts in contracts/, verifier in pyvc/, bounded concrete search in oracle/; no hooks in /repo")
(HERE / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
