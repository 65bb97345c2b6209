#!/usr/bin/env python3
"""as mkseed.py, for prebuild worlds: mkpre.py <id> <patch> <property> <needs> <what> [profile-json] [n]"""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
sys.path.insert(0, V)
sid, patch, prop, needs, what = sys.argv[1:6]
prof = json.loads(sys.argv[6]) if len(sys.argv) > 6 else {}
N = int(sys.argv[7]) if len(sys.argv) > 7 else 60
wt = tempfile.mkdtemp(prefix="seedwt_", dir="/tmp")
subprocess.run(["cp", "-a", "/repo/.", wt], check=True)
subprocess.run(["git", "-C", wt, "apply", os.path.abspath(patch)], check=True)
os.environ["VF_REPO"] = wt
from vf import core, preworld, prerun
from vf.core import Violation, Inconclusive
prof = dict(dict(n_vars=(4, 8), n_schemes=(1, 3), n_modules=(1, 2), n_suites=(1, 1)), **prof)
def one(i):
    d = os.path.join(root, "w%d" % i)
    w = preworld.PWorld(i, prof)
    try:
        prerun.run_world(w, d, root)
        return (i, None, 0)
    except Violation as v:
        return (i, v.key, sum(os.path.getsize(os.path.join(a, f)) for a, _, fs in os.walk(d) for f in fs if f.endswith(".meta")))
    except Inconclusive as v:
        return (i, None, 0)
    finally:
        shutil.rmtree(d, ignore_errors=True)
root = core.scratch_root()
hits = []
for st, it, r in core.pmap(one, range(N)):
    if st == "ok" and r[1]:
        hits.append((r[2], r[0], r[1]))
print("exposed by %d of %d worlds" % (len(hits), N), sorted({h[2] for h in hits})[:8])
if not hits:
    core.rmtree(root); shutil.rmtree(wt); sys.exit("NOT EXPOSED")
hits.sort()
core.REPO = "/repo"; core.SCRIPTS = "/repo/scripts"
prerun.PREBUILD = "/repo/scripts/ccpp_prebuild.py"
out = os.path.join(V, "seeded", sid)
from vf.vlog import vlog_source
for sz, i, key in hits:
    w = preworld.PWorld(i, prof)
    d = os.path.join(root, "g%d" % i)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    w.write(d)
    shutil.copytree(d, out + "/world")
    shutil.rmtree(out + "/world/build", ignore_errors=True)
    open(out + "/world/vlog.F90", "w").write(vlog_source())
    try:
        prerun.run_world(w, d, root)
    except Exception as e:
        print("skip", i, str(e)[:200])
        continue
    shutil.copy(os.path.join(d, "vlog.txt"), out + "/expected.log")
    pre = ["ccpp_kinds.F90"] + [m + ".F90" for m in w.modules] + ["schemes/%s.F90" % s.name for s in w.schemes]
    args = ["--config=ccpp_prebuild_config.py", "--builddir=build"] + (["--debug"] if w.debug else []) + \
           ["--suites=" + ",".join(s.file[:-4] for s in w.suites)]
    json.dump(dict(args=args, pre=pre), open(out + "/config.json", "w"))
    break
core.rmtree(root)
shutil.copy(os.path.join(V, "tools/seedkit/predemo.py"), out + "/predemo.py")
open(out + "/demo.sh", "w").write('#!/bin/bash\n# exit 0 iff the recorded world still gives the recorded behaviour\n'
                                  'exec python3 "$(cd "$(dirname "$0")" && pwd)/predemo.py"\n')
os.chmod(out + "/demo.sh", 0o755)
shutil.copy(patch, out + "/patch.diff")
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(out + "/meta.json", "w"), indent=1)
a = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo").returncode
b = subprocess.run(["bash", out + "/demo.sh"], cwd=wt).returncode
print("demo clean", a, "patched", b)
shutil.rmtree(wt)
if a != 0 or b == 0:
    sys.exit("BAD DEMO")
