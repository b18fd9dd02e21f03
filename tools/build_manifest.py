#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from checks/meta.py and checks/registry.py."""

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks.meta import META  # noqa: E402
from checks.registry import REGISTRY  # noqa: E402

assert set(META) == set(REGISTRY), set(META) ^ set(REGISTRY)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for k, m in sorted(META.items()):
        assert len(m["title"]) <= 80, (k, len(m["title"]))
        a = dict(files=m["files"], mechanism=[dict(name=n, where=w) for n, w in m["mech"]])
        if m["state"]:
            a["state"] = [dict(name=n, meaning=x, where=w) for n, x, w in m["state"]]
        if m["observe"]:
            a["observe_at"] = m["observe"]
        for p in m["files"] + [w for _, w in m["mech"]]:
            assert os.path.exists(os.path.join("/repo", p)), p
        f.write(json.dumps(dict(id=k, title=m["title"], statement=m["statement"], quantifier=dict(over=m["over"], text=m["text"]), why_tests_cant=m["why"], anchors=a)) + "\n")
checks = []
for k in sorted(META):
    checks.append(
        dict(
            property=k,
            quick_cmd=f"python3 run.py {k} --tier quick",
            thorough_cmd=f"python3 run.py {k} --tier thorough",
            technique="property-based testing (Hypothesis generators, independent reference oracle, shrinking)",
            level="exploration",
            level_note="every generated case is decided by an explicit oracle; holds on the cases explored, seeded by VERIF_SEED. Oracle and bounds: DESIGN.md, " + k,
            evidence_file=f"evidence/{k}.json",
        )
    )
man = dict(version=1, setup_cmd="python3 tools/selfcheck.py", checks=checks, not_applicable=[], notes="No hooks in /repo. Defects found are repaired in 'fix:' commits there and listed in known_findings.json.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
