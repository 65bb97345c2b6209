from vf.core import Check
from vf.worldcheck import run_worlds

RULE = ("a case is one random capgen or prebuild world whose run phase is called by 2-8 threads at once, each with its own columns, "
        "chunks or blocks, its own error variables (prebuild: its own control structure) and random pauses in the schemes; everything "
        "is compiled with -fopenmp -fsanitize=thread, ThreadSanitizer watches every memory access of caps, schemes and host, and "
        "the merged log of all threads (per call: schemes entered, argument values, shapes and presence, error code and message; "
        "afterwards all host variables) is replayed in the reference model call by call, as if the calls had been made one after "
        "the other; capgen worlds also call the other phases from inside an OpenMP parallel region, which must be refused; "
        "non-trivial when the scheme calls of at least one region really interleaved")


def main():
    chk = Check("C33", RULE, assumptions=[
        "the workload writes, in the run phase, only data with a horizontal dimension, data of the thread, or data local to one "
        "suite part: what several threads share beyond that is the host's own business",
        "gfortran 13 and ThreadSanitizer; libgfortran itself is not instrumented"])
    cap = dict(par=1, p_debug=0, p_illegal=0.1, p_fail=0.05)
    conv = dict(p_unitdiff=0.4, p_kinddiff=0.3, p_flip=0.3)
    run_worlds(chk, [("c33a", dict(cap, p_active=0.5)), ("c33b", dict(cap, **conv)),
                     ("c33c", dict(cap, p_inter=0.9, p_subcycle=0.3, p_elem=0.4)),
                     ("c33d", dict(cap, p_active=0.3, p_debug=0.3, p_hostarg=0.6, n_groups=(2, 4), n_schemes=(4, 7), **conv))],
               48, 1200, lambda s: s.get("interleaved_regions", 0) > 0, (40, 500), dict(san="tsan"))
    pre = dict(par=1, p_fail=0.1, layouts=["chunked", "blocked", "mixed"])
    run_worlds(chk, [("c33p", dict(pre)), ("c33q", dict(pre, p_thread=0.8, p_active=0.5, p_unitdiff=0.5, layouts=["blocked", "mixed"]))],
               24, 500, lambda s: s.get("interleaved_regions", 0) > 0, (30, 350), dict(san="tsan", engine="pre"))
    chk.finish(min_evals=25, require=["regions", "threads", "thread_switches", "interleaved_regions", "calls_in_parallel_region",
                                      "optional_present", "unit_converted_in", "block_views", "chunk_views"])
