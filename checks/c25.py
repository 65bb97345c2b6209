from .preworlds import go

QUIET = dict(p_fail=0.03, p_illegal=0.03, p_unknown=0.02, p_again=0.05)


def main():
    go("C25", [("c25a", dict(QUIET, p_nested=0.6, p_ddt=0.9, p_elem=0.5, p_unitdiff=0.1, p_active=0.1, n_vars=(10, 18))),
               ("c25b", dict(QUIET, layouts=["blocked", "mixed"], p_thread=0.7, p_unitdiff=0.15, p_partial=0.3,
                             p_entry=dict(init=0.7, timestep_init=0.6, run=0.9, timestep_finalize=0.5, finalize=0.5))),
               ("c25c", dict(QUIET, layouts=["chunked", "mixed", "simple"], p_explicit=0.7, p_low=0.4, p_special=0.8, p_perm=0.4)),
               ("c25d", dict(QUIET, n_vars=(14, 24), n_schemes=(4, 7), n_args=(4, 9), n_groups=(2, 4), p_inst=0.1))],
       120, 1500, "at least 20 arguments were checked",
       lambda s: s.get("args_checked", 0) >= 20, ["args_checked", "host_dumps", "blocked_gathers", "block_views", "chunk_views",
                                                  "special_checked"], 40)
