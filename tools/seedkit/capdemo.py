"""Run capgen on the inputs in world/, compile, run and compare the log with
expected.log (everything happens in a scratch directory)."""
import os, shutil, subprocess, sys, tempfile, json
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
cfg = json.load(open(os.path.join(here, "config.json")))
d = tempfile.mkdtemp(prefix="demo_")
try:
    shutil.copytree(os.path.join(here, "world"), d, dirs_exist_ok=True)
    env = dict(os.environ, PYTHONPATH=repo + "/scripts:" + repo + "/scripts/parse_tools", PYTHONHASHSEED="0",
               PYTHONDONTWRITEBYTECODE="1")
    def run(cmd, what):
        p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=250)
        if p.returncode:
            print(what, "failed:", (p.stdout + p.stderr)[-1500:])
            sys.exit(1)
        return p.stdout
    run([py, repo + "/scripts/ccpp_capgen.py"] + cfg["args"], "capgen")
    files = [f for f in run([py, repo + "/scripts/ccpp_datafile.py", "out/datatable.xml", "--ccpp-files", "--separator", ";"],
                            "datafile").strip().split(";") if f]
    fw = ["ccpp_hashable.F90", "ccpp_hash_table.F90", "ccpp_constituent_prop_mod.F90"]
    kinds = [f for f in files if os.path.basename(f) == "ccpp_kinds.F90"]
    caps = [f for f in files if os.path.basename(f) not in fw + ["ccpp_kinds.F90"]]
    caps.sort(key=lambda f: (os.path.basename(f).startswith(cfg["host"] + "_ccpp_cap"), f))
    flags = ["-cpp", "-O0", "-fcheck=all", "-finit-real=nan", "-finit-integer=-98765", "-finit-logical=false", "-w"]
    run(["gfortran"] + flags + ["-ffree-line-length-none", "-o", "prog"] + kinds + [repo + "/src/" + f for f in fw] +
        ["vlog.F90"] + cfg["pre"] + caps + ["vdriver.F90"], "compilation")
    run(["./prog"], "execution")
    got = open(os.path.join(d, "vlog.txt")).read().split("\n")
    exp = open(os.path.join(here, "expected.log")).read().split("\n")
    if got != exp:
        for a, b in zip(exp, got):
            if a != b:
                print("expected:", a[:300])
                print("got     :", b[:300])
                break
        sys.exit(1)
finally:
    shutil.rmtree(d, ignore_errors=True)
