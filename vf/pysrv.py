"""Client of pysrv_main: cheap repeated runs of the repository's python tools
(a fork of an interpreter with the tools' modules imported per run)."""
import os, json, subprocess, atexit
from . import core

MODS = ("re,logging,collections,argparse,xml.etree.ElementTree,framework_env,parse_tools,metavar,metadata_table,"
        "fortran_tools,ccpp_suite,ccpp_database_obj,ddt_library,host_model,host_cap,suite_objects,constituents,code_block,"
        "ccpp_datafile")
_SRV = {}


def _server(mods):
    key = (os.getpid(), mods)
    s = _SRV.get(key)
    if s is None or s.poll() is not None:
        env = core.tool_env("0")
        env["PYTHONPATH"] += ":" + os.path.join(core.SCRIPTS, "fortran_tools")
        s = subprocess.Popen([core.PYTHON, os.path.join(core.VERIF, "vf", "pysrv_main.py"), mods], env=env,
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        _SRV[key] = s
        atexit.register(_close, s)
    return s


def _close(s):
    try:
        s.stdin.close()
        s.wait(5)
    except Exception:
        s.kill()


def run(argv, cwd, timeout=60, mods=MODS):
    s = _server(mods)
    s.stdin.write(json.dumps(dict(cwd=os.path.abspath(cwd), argv=argv, timeout=timeout)) + "\n")
    s.stdin.flush()
    line = s.stdout.readline()
    if not line:
        raise RuntimeError("tool server ended")
    r = json.loads(line)
    return core.Proc(r["rc"], r["out"], "", r["timeout"])


def capgen(w, d, outdir="out", debug=None, timeout=120):
    from . import caprun
    return run([caprun.CAPGEN] + w.capgen_args(outdir, debug), d, timeout)
