#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from gbtlv/props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "gbtlv"))
import props
checks = []
for p in sorted(props.O.keys() | props.PROOF.keys()):
    lv, tech, note = props.LEVEL.get(p, ("exploration", "bounded oracle (interim)", "Bounded: random trials of the real code against an executable definition."))
    checks.append(dict(property=p, quick_cmd="python3-vt check.py %s --tier quick" % p, thorough_cmd="python3-vt check.py %s --tier thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique=tech, level=lv, level_note=note))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, sys; sys.exit(0)'", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(props.NA.items())],
         notes="All checks regenerate everything from /repo's current sources on each run; see DESIGN.md.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); print(len(checks), "checks")
