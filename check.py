#!/usr/bin/env python3
"""Run the check of one property: check.py <property> [quick|thorough]
   or re-execute a recorded violation: check.py replay <file>"""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
VT = "/opt/veriftools/pyvenv/bin/python"
try:
    import numpy                                        # noqa: F401
except ImportError:
    if os.path.exists(VT) and sys.executable != VT:
        os.execv(VT, [VT] + sys.argv)
    raise
if len(sys.argv) > 2 and sys.argv[1] != "replay":
    os.environ["VERIF_TIER"] = sys.argv[2]
if len(sys.argv) > 2 and sys.argv[1] == "replay":
    rec = json.load(open(sys.argv[2]))
    os.environ["VERIF_SEED"], os.environ["VERIF_TIER"] = str(rec["seed"]), rec["tier"]
    data = rec.get("data") or {}
    if data.get("kind") in ("capworld", "preworld"):
        from vf import core, capworld, caprun, preworld, prerun
        d = core.scratch_root()
        print("replaying in", d, "(kept)")
        try:
            args = (data["world"], data["profile"], data["tag"])
            if data["kind"] == "preworld":
                prerun.run_world(preworld.PWorld(*args), os.path.join(d, "w"), d)
            else:
                caprun.run_world(capworld.World(*args), os.path.join(d, "w"), d)
            print("no violation")
        except core.Violation as v:
            print("VIOLATION property=%s replay=%s" % (rec["property"], sys.argv[2]))
            print(v.key, v.msg)
            sys.exit(1)
        sys.exit(0)
    sys.argv[1] = rec["property"]
importlib.import_module("checks." + sys.argv[1].lower()).main()
