#!/usr/bin/env python3
"""Write MANIFEST.json from the list of checks below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORLD = "runtime monitoring: logged executions of generated caps against a reference model, compiler runtime checks"
NOTE = ("Holds on the executions observed (random inputs from VERIF_SEED, sizes in DESIGN.md); trusts gfortran and the "
        "reference model in vf/.")
C = {}
for p in ("C01 C02 C03 C04 C05 C06 C07 C08 C10").split():
    C[p] = (WORLD, NOTE)
exec(open(os.path.join(V, "tools", "more_checks.py")).read()) if os.path.exists(os.path.join(V, "tools", "more_checks.py")) else None
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in C:
        t, n = C[i][:2]
        lv = C[i][2] if len(C[i]) > 2 else "exploration"
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           technique=t, level=lv, level_note=n))
    else:
        na.append(dict(property=i, reason="no check has been built for it yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="VF_HOOKS", enable=(
    "no hook was needed: every monitor observes the tools and the generated code from outside, /repo carries no "
    "instrumentation"), source_commits=[]), checks=checks, not_applicable=na,
    notes="Every check takes VERIF_SEED; 'python3 check.py replay <file>' re-executes a recorded violation.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "unclaimed")
