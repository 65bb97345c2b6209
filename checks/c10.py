from .capworlds import go, MIX


def main():
    base = dict(p_inter=0.95, p_reinit=0.6, n_vars=(4, 8), n_args=(1, 3), p_debug=0.1, n_groups=(2, 4), n_schemes=(3, 6), p_default=0.3)
    go("C10", [("c10a", dict(base, n_suites=(2, 2), p_scalar_inter=0.1)),
               ("c10b", dict(base, p_inter_diff=0.4, p_unitdiff=0.4, p_kinddiff=0.2, p_flip=0.2)),
               ("c10c", dict(base, p_onecol=0.5, p_explicit=0.6, p_dimarg=0.5, steps=(2, 4), n_extra_dims=(1, 2)))],
       120, 1500, "a suite-held value was read back by a later scheme call with the value written earlier",
       lambda s: s.get("inter_reads", 0) > 0, ["inter_reads", "inter_writes", "inter_cross_phase_reads", "default_values"], 40)
