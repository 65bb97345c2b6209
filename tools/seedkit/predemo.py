"""Run ccpp_prebuild.py on the inputs in world/, compile, run and compare the
log with expected.log (everything happens in a scratch directory)."""
import json, os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
cfg = json.load(open(os.path.join(here, "config.json")))
d = tempfile.mkdtemp(prefix="demo_")


def listed(fn):
    return re.findall(r"[^\s\\;\"'()]+\.(?:F90|f90|F|f)\b", open(os.path.join(d, "build", fn)).read())


def by_use(files):
    mods, uses, res = {}, {}, []
    for f in files:
        t = open(os.path.join(d, f)).read()
        for m in re.findall(r"(?im)^\s*module\s+(\w+)\s*$", t):
            mods[m.lower()] = f
        uses[f] = [x.lower() for x in re.findall(r"(?im)^\s*use\s+(\w+)", t)]

    def add(f):
        if f not in res:
            for u in uses[f]:
                if mods.get(u, f) != f:
                    add(mods[u])
            res.append(f)
    for f in files:
        add(f)
    return res


try:
    shutil.copytree(os.path.join(here, "world"), d, dirs_exist_ok=True)
    os.makedirs(os.path.join(d, "build", "caps"))
    env = dict(os.environ, PYTHONPATH=repo + "/scripts:" + repo + "/scripts/parse_tools", PYTHONHASHSEED="0",
               PYTHONDONTWRITEBYTECODE="1")

    def run(cmd, what):
        p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=250)
        if p.returncode:
            print(what, "failed:", (p.stdout + p.stderr)[-1500:])
            sys.exit(1)
        return p.stdout
    run([py, repo + "/scripts/ccpp_prebuild.py"] + cfg["args"], "prebuild")
    caps, api = listed("CCPP_CAPS.mk"), listed("CCPP_API.sh")
    gen = by_use(caps + [a for a in api if a not in caps])
    mpi = [x for x in subprocess.run(["mpif90", "-show"], stdout=subprocess.PIPE, text=True).stdout.split() if x.startswith("-I")]
    flags = ["-cpp", "-O0", "-fcheck=all", "-finit-real=nan", "-finit-integer=-98765", "-finit-logical=false", "-w",
             "-ffree-line-length-none"] + mpi
    run(["gfortran"] + flags + ["-o", "prog", repo + "/src/ccpp_types.F90", "vlog.F90"] + cfg["pre"] + gen + ["vdriver.F90"],
        "compilation")
    run(["./prog"], "execution")
    got = open(os.path.join(d, "vlog.txt")).read().split("\n")
    exp = open(os.path.join(here, "expected.log")).read().split("\n")
    if got != exp:
        for a, b in zip(exp, got):
            if a != b:
                print("expected:", a[:300])
                print("got     :", b[:300])
                break
        sys.exit(1)
finally:
    shutil.rmtree(d, ignore_errors=True)
