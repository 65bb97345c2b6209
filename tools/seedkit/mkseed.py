#!/usr/bin/env python3
"""mkseed.py <id> <patch> <property> <needs> <what> [profile-json] [n]: confirm a planted
change in a scratch copy and write seeded/<id> with a demonstration taken from
the smallest random world that exposes it."""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
sys.path.insert(0, V)
sid, patch, prop, needs, what = sys.argv[1:6]
prof = json.loads(sys.argv[6]) if len(sys.argv) > 6 else {}
N = int(sys.argv[7]) if len(sys.argv) > 7 else 60
wt = tempfile.mkdtemp(prefix="seedwt_", dir="/tmp")
subprocess.run(["cp", "-a", "/repo/.", wt], check=True)
subprocess.run(["git", "-C", wt, "apply", os.path.abspath(patch)], check=True)
os.environ["VF_REPO"] = wt
from vf import core, capworld, caprun
from vf.core import Violation, Inconclusive
small = dict(n_vars=(3, 7), n_schemes=(1, 3), n_args=(1, 4), steps=(1, 2))
prof = dict(small, **prof)
def one(i):
    d = os.path.join(root, "w%d" % i)
    w = capworld.World(i, prof, "seed" + sid)
    try:
        caprun.run_world(w, d, root)
        return (i, None, 0)
    except Violation as v:
        return (i, v.key, sum(len(x) for x in w.files().values()))
    except Inconclusive as v:
        return (i, None, 0)
    finally:
        shutil.rmtree(d, ignore_errors=True)
root = core.scratch_root()
hits = []
for st, it, r in core.pmap(one, range(N)):
    if st == "ok" and r[1]:
        hits.append((r[2], r[0], r[1]))
print("exposed by %d of %d worlds" % (len(hits), N), sorted({h[2] for h in hits}))
if not hits:
    core.rmtree(root); shutil.rmtree(wt); sys.exit("NOT EXPOSED")
hits.sort()
os.environ["VF_REPO"] = "/repo"
core.REPO = "/repo"; core.SCRIPTS = "/repo/scripts"
caprun.CAPGEN = "/repo/scripts/ccpp_capgen.py"; caprun.DATAFILE = "/repo/scripts/ccpp_datafile.py"
out = os.path.join(V, "seeded", sid)
for sz, i, key in hits:
    w = capworld.World(i, prof, "seed" + sid)
    d = os.path.join(root, "g%d" % i)
    try:
        caprun.run_world(w, d, root)
    except Exception as e:
        print("skip", i, e)
        continue
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out + "/world")
    for fn in list(w.files()) + ["vdriver.F90"]:
        shutil.copy(os.path.join(d, fn), out + "/world/" + fn)
    from vf.vlog import vlog_source
    open(out + "/world/vlog.F90", "w").write(vlog_source())
    shutil.copy(os.path.join(d, "vlog.txt"), out + "/expected.log")
    seen = []
    for s in w.schemes:
        if s.file not in seen:
            seen.append(s.file)
    pre = (["hddt.F90"] if w.ddts and w.ddt_file() == "hddt" else []) + [m + ".F90" for m in w.modules] + [x + ".F90" for x in seen]
    json.dump(dict(args=w.capgen_args(), host=w.host, pre=pre), open(out + "/config.json", "w"))
    break
core.rmtree(root)
for f in ("demo.sh", "capdemo.py"):
    shutil.copy(os.path.join(V, "tools/seedkit", f), out)
os.chmod(out + "/demo.sh", 0o755)
shutil.copy(patch, out + "/patch.diff")
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(out + "/meta.json", "w"), indent=1)
a = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo").returncode
b = subprocess.run(["bash", out + "/demo.sh"], cwd=wt).returncode
print("demo clean", a, "patched", b)
shutil.rmtree(wt)
if a != 0 or b == 0:
    sys.exit("BAD DEMO")
