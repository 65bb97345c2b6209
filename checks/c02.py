from .capworlds import go, MIX


def main():
    slim = dict(n_args=(1, 3), n_vars=(4, 7), p_ddt=0.2, p_debug=0.0, p_suitetag=0.3, p_tsplit=0.2)
    go("C02", [("c02a", dict(slim, p_subcycle=0.4, p_repeat=0.7, n_groups=(1, 4), n_items=(1, 5), n_schemes=(3, 7))),
               ("c02b", dict(slim, p_repeat=0.8, n_suites=(2, 3), n_groups=(2, 4), n_schemes=(3, 8), n_items=(1, 6),
                             p_two_in_file=0.5)),
               ("c02c", dict(MIX, p_subcycle=0.3, p_repeat=0.5, p_inter=0.8))],
       120, 1500, "at least 8 scheme calls were observed in it",
       lambda s: s.get("scheme_calls", 0) >= 8, ["scheme_calls", "legal_calls"], 40)
