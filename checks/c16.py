"""Host-level constituent interfaces agree with the declared constituents."""
import os, shutil
from vf import core, constworld
from vf.core import Violation, Inconclusive, Check
from .c12 import run_cases

RULE = ("a case is one generated world: schemes declaring constituents, registering some at run time and using the constituent "
        "array, its tendencies, properties and indices, one to three suites and a host with constituents of its own; capgen "
        "generates the caps, which are compiled with runtime checks (a part with address sanitizer) and driven through one to "
        "three set-ups with register, query, gather, update, phases and teardown; everything the schemes and the host see is "
        "compared with a model of the declared constituents; non-trivial when a set-up registered at least two constituents "
        "and schemes read or wrote them")
ASSUME = ["of compatible duplicate definitions of a constituent any one may be taken",
          "the finalizer of the hash table is recursive, which Fortran 2018 allows: gfortran's check for recursion is off"]


def case(item):
    prof, tag, seed, root, san = item
    d = os.path.join(root, "w%s%d" % (tag, seed))
    stats = {}
    try:
        w = constworld.CWorld(seed, prof, tag)
        constworld.run_world(w, d, root, san, stats)
        if san:
            stats["sanitized_worlds"] = 1
        return ("ok", stats, "%s%d" % (tag, seed) if stats.get("constituents", 0) > 1 and stats.get("arg-const") else None)
    except Violation as v:
        return ("violation", v.key, v.msg)
    except Inconclusive as v:
        return ("inconclusive", str(v)[:1500])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    chk = Check("C16", RULE, assumptions=ASSUME)
    root = core.scratch_root()
    q = core.QUICK
    profs = [("c16a", {}), ("c16b", dict(n_static=(2, 6), n_suites=(2, 3), p_overlap=0.6)),
             ("c16c", dict(n_dyn=(1, 5), n_host=(1, 5), p_conflict=0.5, cycles=(2, 4))),
             ("c16d", dict(n_static=(1, 4), p_whole=0.8, p_tend=0.8, p_conflict=0.1))]
    items = []
    for i in range(96 if q else 2400):
        tag, prof = profs[i % len(profs)]
        items.append((prof, "%s%d_" % (tag, core.SEED), i, root, i % 9 == 4))
    try:
        run_cases(chk, case, items, 30 if q else 800)
    finally:
        core.rmtree(root)
    chk.finish(min_evals=30, require=["constituents", "conflicts", "set_up_again", "arg-const", "arg-whole", "arg-tend", "properties",
                                      "indices", "values", "op_gather", "op_update", "sanitized_worlds"])
