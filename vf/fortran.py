"""Drivers of the Fortran runtime modules, built with sanitizers."""
import os
from . import core
from .fbuild import src_file

FLAGS = ["-cpp", "-O0", "-g1", "-fcheck=all,no-recursion", "-fbacktrace", "-finit-integer=-98765", "-finit-real=snan",
         "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-w", "-ffree-line-length-none"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=1")
KINDS = "module ccpp_kinds\n use iso_fortran_env, only: kind_phys => REAL64\n implicit none\n public\nend module ccpp_kinds\n"


def hexs(s):
    return s.encode("latin1").hex()


def build_driver(root, driver, sources):
    with open(os.path.join(root, "ccpp_kinds.F90"), "w") as f:
        f.write(KINDS)
    exe = os.path.join(root, driver.split(".")[0])
    p = core.run(["gfortran"] + FLAGS + ["ccpp_kinds.F90"] + [src_file(s) for s in sources] +
                 [os.path.join(core.VERIF, "fortran", driver), "-o", exe], root, 300)
    if p.rc:
        raise core.Inconclusive("the driver does not compile with the modules: " + p.text()[:3000])
    return exe


def run_driver(exe, d, name, ops, timeout=60):
    fn = os.path.join(d, name)
    with open(fn, "w", encoding="latin1") as f:
        f.write("\n".join(ops) + "\n")
    p = core.run([exe, fn], d, timeout, ENV)
    out = []
    if os.path.exists(fn + ".out"):
        with open(fn + ".out", encoding="latin1") as f:
            out = f.read().split("\n")[:-1]
        os.remove(fn + ".out")
    os.remove(fn)
    return p, out
