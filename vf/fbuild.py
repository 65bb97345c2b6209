"""Compiling generated code: cached framework objects, one compiler call per world."""
import hashlib, os, shutil, time
from . import core
from .vlog import vlog_source

CAPFLAGS = ["-cpp", "-O0", "-g0", "-fcheck=all", "-fbacktrace", "-ffpe-trap=zero", "-finit-real=nan",
            "-finit-integer=-98765", "-finit-logical=false", "-w"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-g1"]
# (the warnings of -fcheck=array-temps use a flag shared by threads)
TSAN = ["-fopenmp", "-fcheck=no-array-temps,no-recursion", "-fsanitize=thread", "-g1"]
OMP = ["-fopenmp", "-fcheck=no-array-temps,no-recursion"]
SAN = {False: [], True: ASAN, "tsan": TSAN, "omp": OMP}
THREADS = os.path.join(core.VERIF, "fortran", "vthreads.c")
TSAN_OPTIONS = "suppressions=%s detect_deadlocks=0 report_mutex_bugs=0 exitcode=66 history_size=4" % os.path.join(
    core.VERIF, "fortran", "tsan.supp")
FRAMEWORK = ["ccpp_hashable.F90", "ccpp_hash_table.F90", "ccpp_constituent_prop_mod.F90"]


def src_file(name):
    return os.path.join(core.REPO, "src", name)


def object_cache(root, kinds_text, san=False, extra=()):
    """Directory holding objects+modules of ccpp_kinds, the framework and vlog"""
    h = hashlib.sha256()
    h.update(kinds_text.encode())
    h.update(vlog_source().encode())
    for s in FRAMEWORK:
        with open(src_file(s), "rb") as f:
            h.update(f.read())
    h.update(repr((san, extra)).encode())
    d = os.path.join(root, "objs_" + h.hexdigest()[:16])
    if os.path.exists(os.path.join(d, "ok")):
        return d
    lock = d + ".lock"
    try:
        os.mkdir(lock)
    except FileExistsError:
        for _ in range(1200):
            if os.path.exists(os.path.join(d, "ok")) or os.path.exists(os.path.join(d, "failed")):
                return d
            time.sleep(0.1)
        return d
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "ccpp_kinds.F90"), "w") as f:
        f.write(kinds_text)
    with open(os.path.join(d, "vlog.F90"), "w") as f:
        f.write(vlog_source())
    cmd = ["gfortran", "-c"] + CAPFLAGS + SAN[san] + list(extra) + ["-ffree-line-length-none"]
    p = core.run(cmd + ["ccpp_kinds.F90"] + [src_file(s) for s in FRAMEWORK] + ["vlog.F90"], d, 300)
    if san in ("tsan", "omp") and p.rc == 0:
        p = core.run(["gcc", "-c", "-O1", "-g1"] + (["-fsanitize=thread"] if san == "tsan" else []) + [THREADS], d, 60)
    with open(os.path.join(d, "ok" if p.rc == 0 else "failed"), "w") as f:
        f.write(p.text())
    return d


def compile_world(d, caps, users, objdir, exe, san=False, extra=()):
    """users_pre (host modules, schemes), caps, driver -> executable.
    Returns (ok, text)."""
    base = ["gfortran"] + CAPFLAGS + SAN[san] + list(extra) + ["-I", objdir, "-J", d]
    objs = [os.path.join(objdir, x) for x in sorted(os.listdir(objdir)) if x.endswith(".o")]
    pre, driver = users
    # one call for our own sources (long lines allowed), one for the generated caps (default limit)
    p = core.run(base + ["-ffree-line-length-none", "-c"] + pre, d, 300)
    if p.rc:
        return False, "harness", p.text()
    p = core.run(base + ["-c"] + caps, d, 300)
    if p.rc:
        return False, "caps", p.text()
    p = core.run(base + ["-ffree-line-length-none", driver] +
                 [os.path.splitext(os.path.basename(x))[0] + ".o" for x in pre + caps] + objs + ["-o", exe], d, 300)
    if p.rc:
        return False, "driver", p.text()
    return True, "", ""
