from .preworlds import go

QUIET = dict(p_fail=0.03, p_illegal=0.03, p_unknown=0.02, p_again=0.05, p_inst=0.1)


def main():
    go("C27", [("c27a", dict(QUIET, p_unitdiff=0.85, p_active=0.1, p_elem=0.3, n_vars=(8, 14), n_args=(3, 7))),
               ("c27b", dict(QUIET, p_unitdiff=0.2, p_active=0.7, p_setcond=0.7, steps=(2, 3), n_args=(3, 7))),
               ("c27c", dict(QUIET, p_unitdiff=0.6, p_active=0.6, p_setcond=0.6, layouts=["blocked", "mixed", "chunked"],
                             p_entry=dict(init=0.6, timestep_init=0.6, run=0.9, timestep_finalize=0.5, finalize=0.5)))],
       120, 1500, "a unit conversion was observed or an optional argument was both present and absent",
       lambda s: s.get("unit_converted_in", 0) + s.get("unit_converted_out", 0) > 0 or
       (s.get("optional_present", 0) and s.get("optional_absent", 0)),
       ["unit_converted_in", "unit_converted_out", "optional_present", "optional_absent"], 40)
