from .preworlds import go

SMALL = dict(n_vars=(3, 6), n_args=(1, 3), p_unitdiff=0.05, p_active=0.05, p_ddt=0.3, n_schemes=(3, 6), n_suites=(1, 3))


def main():
    go("C26", [("c26a", dict(SMALL, p_fail=0.35, p_inst=0.6, p_illegal=0.4, p_unknown=0.3, p_again=0.5)),
               ("c26b", dict(SMALL, n_groups=(2, 4), n_sub=(1, 3), n_items=(1, 5), p_loop=0.6, p_repeat=0.6, p_fail=0.1,
                             p_special=0.8)),
               ("c26c", dict(SMALL, n_groups=(1, 4), p_noargs=0.3, p_inst=0.9, p_illegal=0.6, p_groupcall=0.7, steps=(1, 3),
                             p_entry=dict(init=0.3, timestep_init=0.3, run=0.6, timestep_finalize=0.3, finalize=0.3)))],
       120, 1500, "the world made at least 8 API calls of which one was a protocol violation, repeated, failing or unknown",
       lambda s: s.get("api_calls", 0) >= 8 and any(s.get(k) for k in (
           "failing_calls", "uninitialized_calls", "unknown_name_calls", "repeated_inits", "idle_finalizes")),
       ["good_calls", "failing_calls", "uninitialized_calls", "unknown_name_calls", "repeated_inits", "idle_finalizes"], 40)
