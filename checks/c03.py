from .capworlds import go, MIX


def main():
    slim = dict(n_args=(0, 2), n_vars=(3, 6), p_ddt=0.2, p_debug=0.0, p_reinit=0.6, p_illegal=0.9, steps=(1, 3))
    go("C03", [("c03a", dict(slim, n_suites=(2, 3), p_inter=0.3)),
               ("c03b", dict(slim, n_suites=(1, 2), p_fail=0.1)),
               ("c03c", dict(MIX, p_illegal=0.7, p_reinit=0.5, p_inter=0.7, n_suites=(2, 2)))],
       120, 1500, "it contains calls made outside their legal state that had to be refused",
       lambda s: s.get("illegal_calls", 0) >= 1, ["illegal_calls", "legal_calls"], 40)
